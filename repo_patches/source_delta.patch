From bdb372c87fd48f796ddc5400b7eef59236dfe448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:20 +0000
Subject: [PATCH 01/37] fix: keep account addresses stable while the account
 tree grows

Child accounts were stored by value in a HashMap, so adding a fourth sibling
moved them and left the parent pointers of their children and the account
pointers of the posts dangling.
---
 src/account.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/account.rs b/src/account.rs
index 1fec747..77b1549 100644
--- a/src/account.rs
+++ b/src/account.rs
@@ -12,7 +12,8 @@ pub struct Account {
     pub name: String,
     // note
     // depth
-    pub accounts: HashMap<String, Account>,
+    /// Boxed, so that the addresses of the accounts stay valid while the map grows.
+    pub accounts: HashMap<String, Box<Account>>,
     pub posts: Vec<*const Post>,
     // deferred posts
     // value_expr
@@ -39,7 +40,7 @@ impl Account {
 
         let self_mut = self.get_account_mut(self as *const Account as *mut Account);
 
-        self_mut.accounts.insert(first.into(), new_account);
+        self_mut.accounts.insert(first.into(), Box::new(new_account));
 
         let Some(new_ref) = self.accounts.get(first)
             else {panic!("should not happen")};
@@ -100,7 +101,7 @@ impl Account {
     pub fn find_or_create(&self, name: &str, auto_create: bool) -> Option<*const Account> {
         // search for direct hit.
         if let Some(found) = self.accounts.get(name) {
-            return Some(found);
+            return Some(&**found);
         }
 
         // otherwise search for name parts in between the `:`
@@ -120,7 +121,7 @@ impl Account {
 
         if let Some(account_opt) = self.accounts.get(first) {
             // keep this value
-            account = account_opt;
+            account = &**account_opt;
         } else {
             if !auto_create {
                 return None;
@@ -174,7 +175,7 @@ impl Account {
         // Push the current node to the Vec
         nodes.push(self);
         // 
-        let mut children: Vec<&Account> = self.accounts.values().into_iter().collect();
+        let mut children: Vec<&Account> = self.accounts.values().map(|acc| &**acc).collect();
         children.sort_unstable_by_key(|acc| &acc.name);
         // If the node has children, recursively call flatten on them
         for child in children {
-- 
2.43.0


From d3cabeb18a2b0832409762e39f5de88339174283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:47 +0000
Subject: [PATCH 02/37] fix: keep commodity addresses stable while the pool
 grows

Commodities were stored by value in a HashMap, so adding a fourth commodity
moved them and left every amount's commodity pointer dangling.
---
 src/pool.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/pool.rs b/src/pool.rs
index 719e69c..90cdebe 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -24,7 +24,8 @@ pub type CommodityIndex = NodeIndex;
 pub struct CommodityPool {
     /// Map (symbol, commodity)
     // pub(crate) commodities: HashMap<String, NodeIndex>,
-    pub(crate) commodities: HashMap<String, Commodity>,
+    /// Boxed, so that the addresses of the commodities stay valid while the map grows.
+    pub(crate) commodities: HashMap<String, Box<Commodity>>,
     // pub(crate) commodities: HashMap<String, Rc<Commodity>>,
     /// Commodity annotations. symbol, annotation
     pub(crate) annotated_commodities: HashMap<String, Annotation>,
@@ -77,12 +78,12 @@ impl CommodityPool {
         }
 
         // move to map
-        self.commodities.insert(symbol.to_string(), c);
+        self.commodities.insert(symbol.to_string(), Box::new(c));
         // get the new address.
         let new_commodity = self.commodities.get(symbol).unwrap();
 
         // add to price history graph.
-        let cdty_ptr = new_commodity as *const Commodity;
+        let cdty_ptr = &**new_commodity as *const Commodity;
         // log::debug!("commodity pointer: {:?} for {:?}", cdty_ptr, symbol);
         let i = self.commodity_history.add_commodity(cdty_ptr);
 
@@ -98,7 +99,7 @@ impl CommodityPool {
     }
 
     pub fn find(&self, symbol: &str) -> Option<&Commodity> {
-        self.commodities.get(symbol)
+        self.commodities.get(symbol).map(|c| &**c)
     }
 
     pub fn find_index(&self, symbol: &str) -> Option<CommodityIndex> {
@@ -128,7 +129,7 @@ impl CommodityPool {
                     .insert(symbol.to_owned(), annotation.unwrap());
             }
 
-            c
+            &**c
         } else {
             self.create(symbol, annotation)
         }
-- 
2.43.0


From b4b3f3e4025751f19ceea686ba76a1c8cec4a9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:49 +0000
Subject: [PATCH 03/37] fix: link the posts to their accounts after the
 transaction is complete

The accounts stored the addresses of elements of a growing Vec. A transaction
with more than four posts moved them and left dangling pointers, so the account
balances were computed from freed memory.
---
 src/parser.rs | 10 ++--------
 src/xact.rs   |  7 ++++++-
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index ae56776..9171735 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -449,7 +449,6 @@ fn parse_post(input: &str, xact_ptr: *const Xact, journal: &mut Journal) -> Resu
     let note = None;
 
     // Create Post, link Xact, Account, Commodity
-    let post_ref: &Post;
     {
         let post: Post;
         post = Post::new(account_ptr, xact_ptr, amount_opt, cost_option, note);
@@ -461,15 +460,10 @@ fn parse_post(input: &str, xact_ptr: *const Xact, journal: &mut Journal) -> Resu
             xact = &mut *(xact_ptr.cast_mut());
         }
         // xact.post_indices.push(post_index);
-        post_ref = xact.add_post(post);
+        xact.add_post(post);
     }
 
-    // add Post to Account.posts
-    {
-        //let account = journal.accounts.get_mut(account_ptr).unwrap();
-        let account = journal.get_account_mut(account_ptr);
-        account.posts.push(post_ref);
-    }
+    // The Post is added to Account.posts when the Xact is finalized.
 
     Ok(())
 }
diff --git a/src/xact.rs b/src/xact.rs
index d7e879e..4ef3923 100644
--- a/src/xact.rs
+++ b/src/xact.rs
@@ -274,7 +274,12 @@ pub fn finalize(xact_ptr: *const Xact, journal: &mut Journal) {
     }
 
     // TODO: Process Commodities?
-    // TODO: Process Account records from Posts.
+
+    // Add the Posts to their Accounts.
+    // This is done only once all the Posts are known, because adding to Xact.posts moves them.
+    for post in &xact.posts {
+        journal.get_account_mut(post.account).posts.push(post);
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 21e4df0bef6dda74a6b473f9c78818ca034b4272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:52 +0000
Subject: [PATCH 04/37] fix: keep the transaction links of the posts valid
 while the journal grows

Journal.xacts moves the transactions when it reallocates, which left
Post.xact_ptr of all the earlier posts dangling.
---
 src/journal.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/journal.rs b/src/journal.rs
index 08b4a15..69bfea0 100644
--- a/src/journal.rs
+++ b/src/journal.rs
@@ -36,7 +36,22 @@ impl Journal {
     }
 
     pub fn add_xact(&mut self, xact: Xact) -> &Xact {
+        let previous_address = self.xacts.as_ptr();
         self.xacts.push(xact);
+
+        // The existing transactions get moved when the collection grows.
+        let first_moved = if self.xacts.as_ptr() == previous_address {
+            self.xacts.len() - 1
+        } else {
+            0
+        };
+        for moved in &mut self.xacts[first_moved..] {
+            let xact_ptr = moved as *const Xact;
+            for post in &mut moved.posts {
+                post.xact_ptr = xact_ptr;
+            }
+        }
+
         //self.xacts.len() - 1
         self.xacts.last().unwrap()
     }
-- 
2.43.0


From 0ed5164dec51e22729ca20aa91c65ba24bdfb20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:24 +0000
Subject: [PATCH 05/37] fix: Amount::inverse must change the sign of negative
 amounts, too

An elided posting amount was given the same sign as a negative remainder, so
the transaction did not balance. It also made a reference from the null
commodity pointer of amounts without a commodity.
---
 src/amount.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/amount.rs b/src/amount.rs
index 9e08c94..498472f 100644
--- a/src/amount.rs
+++ b/src/amount.rs
@@ -74,15 +74,9 @@ impl Amount {
 
     /// Creates an amount with the opposite sign on the quantity.
     pub fn inverse(&self) -> Amount {
-        let new_quantity = if self.quantity.is_sign_positive() {
-            let mut x = self.quantity.clone();
-            x.set_sign_negative();
-            x
-        } else {
-            self.quantity
-        };
-
-        unsafe { Amount::new(new_quantity, Some(&*self.commodity)) }
+        let mut result = *self;
+        result.invert();
+        result
     }
 
     /// Inverts the sign on the amount.
-- 
2.43.0


From a1fbd2f5fce26052b0ddad58509c299e001f000a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:26 +0000
Subject: [PATCH 06/37] fix: do not dereference the null commodity when adding
 or multiplying amounts

---
 src/amount.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/amount.rs b/src/amount.rs
index 498472f..cec0983 100644
--- a/src/amount.rs
+++ b/src/amount.rs
@@ -117,7 +117,7 @@ impl Add<Amount> for Amount {
 
         let sum = self.quantity + rhs.quantity;
 
-        unsafe { Amount::new(sum, Some(&*self.commodity)) }
+        Amount::new(sum, Some(self.commodity))
     }
 }
 
@@ -161,7 +161,7 @@ impl Mul<Amount> for Amount {
             self.commodity
         };
 
-        unsafe { Amount::new(quantity, Some(&*commodity)) }
+        Amount::new(quantity, Some(commodity))
     }
 }
 
-- 
2.43.0


From cab47c893dec582f27ad0a88da6dbc5dbaeffe7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:28 +0000
Subject: [PATCH 07/37] fix: looking up an unknown sub-account or commodity
 returns None instead of panicking

---
 src/account.rs | 2 +-
 src/pool.rs    | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/account.rs b/src/account.rs
index 77b1549..6aa5e7d 100644
--- a/src/account.rs
+++ b/src/account.rs
@@ -133,7 +133,7 @@ impl Account {
         // Search recursively.
         if !rest.is_empty() {
             let acct = self.get_account_mut(account);
-            account = acct.find_or_create(rest, auto_create).unwrap();
+            account = acct.find_or_create(rest, auto_create)?;
         }
 
         Some(account)
diff --git a/src/pool.rs b/src/pool.rs
index 90cdebe..a19b07b 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -103,8 +103,7 @@ impl CommodityPool {
     }
 
     pub fn find_index(&self, symbol: &str) -> Option<CommodityIndex> {
-        let x = self.commodities.get(symbol);
-        x.unwrap().graph_index
+        self.commodities.get(symbol)?.graph_index
     }
 
     /// Finds a commodity with the given symbol, or creates one.
-- 
2.43.0


From 8bbf6b2d2c8301bf232308ee4a7869eec04d36d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:31 +0000
Subject: [PATCH 08/37] fix: parse the price directive in journals

Any line starting with P ended in todo!(). The line is passed without the
line ending, which would otherwise become a part of the commodity symbol.
---
 src/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 9171735..f8a019d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -237,6 +237,9 @@ impl<'j, T: Read> Parser<'j, T> {
                 _ => (),
             },
 
+            // handled as a pricing xact
+            'P' => (),
+
             // ptvy
             _ => {
                 todo!("handle")
@@ -252,7 +255,7 @@ impl<'j, T: Read> Parser<'j, T> {
         // pass on to the commodity pool
         self.journal
             .commodity_pool
-            .parse_price_directive(&self.buffer);
+            .parse_price_directive(self.buffer.trim_end());
     }
 
     fn create_xact(&mut self) -> *const Xact {
-- 
2.43.0


From ff9c1fb3620456e15d8ab37d032d83af892b6e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:33 +0000
Subject: [PATCH 09/37] fix: the cost does not have to be separated from @ or
 @@ by a space

The first digit of the cost was skipped: '@5 EUR' lost the cost and
'@@20 EUR' was read as 0 EUR.
---
 src/scanner.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index 60d4007..b4af063 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -381,10 +381,10 @@ fn scan_cost(input: &str) -> CostTokens {
 
     let (first_char, is_per_unit) = if input.chars().nth(1) != Some('@') {
         // per-unit cost
-        (2, true)
+        (1, true)
     } else {
         // total cost
-        (3, false)
+        (2, false)
     };
     let input = &input[first_char..].trim_start();
     let (amount_tokens, input) = scan_amount(input);
-- 
2.43.0


From 16afbf035cbfad5535b7f72afb1d1628d57334ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:35 +0000
Subject: [PATCH 10/37] fix: a note or trailing spaces after the account or the
 amount of a posting

'Assets  20  ; note' was read as an amount in the commodity ';', and spaces
after an account with no amount caused a panic.
---
 src/scanner.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index b4af063..50b85ad 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -215,7 +215,17 @@ pub(crate) fn scan_post(input: &str) -> PostTokens {
     // there's more content
 
     let account = &input[..sep_index];
-    let (amount_tokens, input) = scan_amount(&input[sep_index + 2..]);
+
+    // the note is not a part of the amount.
+    let input = input[sep_index + 2..].split(';').next().unwrap_or("").trim();
+    if input.is_empty() {
+        // no amount
+        let mut post_tokens = PostTokens::create_empty();
+        post_tokens.account = account;
+        return post_tokens;
+    }
+
+    let (amount_tokens, input) = scan_amount(input);
     let (annotation_tokens, input) = scan_annotations(input);
     let cost_tokens = match input.is_empty() {
         true => CostTokens::new(),
-- 
2.43.0


From ab891af60c376757c4baa2f75aaf871832f12db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:38 +0000
Subject: [PATCH 11/37] fix: accept blank lines with spaces and transaction
 headers with just the date

A second line of spaces after a transaction ended in todo!(), and the line
ending became a part of the date when there was no payee.
---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index f8a019d..f081ff1 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -142,7 +142,7 @@ impl<'j, T: Read> Parser<'j, T> {
         // }
         // let length = self.buffer.len();
         // log::debug!("line length: {:?}", length);
-        if self.buffer == "\r\n" || self.buffer == "\n" {
+        if self.buffer.trim().is_empty() {
             return Ok(());
         }
 
@@ -259,7 +259,7 @@ impl<'j, T: Read> Parser<'j, T> {
     }
 
     fn create_xact(&mut self) -> *const Xact {
-        let tokens = scanner::tokenize_xact_header(&self.buffer);
+        let tokens = scanner::tokenize_xact_header(self.buffer.trim_end());
         let xact = Xact::create(tokens[0], tokens[1], tokens[2], tokens[3]);
 
         // Add xact to the journal
-- 
2.43.0


From 3611ef4ec8f0e5d4fae32528ba39ac63bf6f83f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:01 +0000
Subject: [PATCH 12/37] fix: reject malformed amounts instead of treating them
 as elided

'Expenses  1,000 EUR' was silently read as a posting without an amount and
got the remainder of the other postings. A malformed cost was dropped. As
documented, parse_amount_parts panics if the parsing fails.
---
 src/parser.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index f081ff1..1203c61 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -78,8 +78,11 @@ pub fn parse_amount_parts(
 
     if let Some(quantity) = Quantity::from_str(quantity) {
         Some(Amount::new(quantity, Some(commodity_ptr)))
-    } else {
+    } else if quantity.is_empty() && commodity.is_empty() {
+        // no amount
         None
+    } else {
+        panic!("Invalid amount: {:?} {:?}", quantity, commodity)
     }
 }
 
@@ -476,7 +479,8 @@ fn parse_cost(
     amount: &Option<Amount>,
     journal: &mut Journal,
 ) -> Option<Amount> {
-    if tokens.cost_quantity.is_empty() || amount.is_none() {
+    let has_cost = !tokens.cost_quantity.is_empty() || !tokens.cost_symbol.is_empty();
+    if !has_cost || amount.is_none() {
         return None;
     }
 
-- 
2.43.0


From bf0f32d3940ddb101dd6357baf8ab268a4c2b0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:03 +0000
Subject: [PATCH 13/37] fix: the total cost of a sale balances with the sign of
 the amount

A sale '-10 VEUR @@ 25 EUR' was balanced as if 25 EUR were paid, not received.
---
 src/xact.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/xact.rs b/src/xact.rs
index 4ef3923..5557587 100644
--- a/src/xact.rs
+++ b/src/xact.rs
@@ -123,10 +123,15 @@ pub fn finalize(xact_ptr: *const Xact, journal: &mut Journal) {
 
         log::debug!("finalizing {:?}", post);
 
-        let amount = if post.cost.is_some() {
-            post.cost
-        } else {
-            post.amount
+        let amount = match (post.cost, post.amount) {
+            // The total cost (@@) has no sign of its own. It follows the sign of the amount.
+            (Some(cost), Some(amt))
+                if cost.quantity.is_sign_positive() && !amt.quantity.is_sign_positive() =>
+            {
+                Some(cost.inverse())
+            }
+            (Some(cost), _) => Some(cost),
+            (None, amt) => amt,
         };
 
         if amount.is_some() {
-- 
2.43.0


From 8dde6b49f0e14a07da22a96ab2ae32d31a4ac920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:05 +0000
Subject: [PATCH 14/37] fix: do not replace the given costs with the implied
 ones

With a residual in two commodities, the conversion ratio was computed even when
a posting had a cost. It overwrote the given cost and left the transaction
unbalanced.
---
 src/xact.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/xact.rs b/src/xact.rs
index 5557587..860d286 100644
--- a/src/xact.rs
+++ b/src/xact.rs
@@ -166,8 +166,9 @@ pub fn finalize(xact_ptr: *const Xact, journal: &mut Journal) {
             }
         }
 
-        // if !saw_cost && top_post
-        if top_post.is_some() {
+        let saw_cost = xact.posts.iter().any(|post| post.cost.is_some());
+
+        if !saw_cost && top_post.is_some() {
             // log::debug("there were no costs, and a valid top_post")
 
             // We need a separate readonly reference for reading the amounts.
-- 
2.43.0


From b191036f1e4488708c019ab78ae79b2509d772a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:32 +0000
Subject: [PATCH 15/37] fix: reject transactions that do not balance

A transaction with all the amounts given was accepted whatever they sum up to.
---
 src/xact.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/xact.rs b/src/xact.rs
index 860d286..c939a9a 100644
--- a/src/xact.rs
+++ b/src/xact.rs
@@ -153,6 +153,8 @@ pub fn finalize(xact_ptr: *const Xact, journal: &mut Journal) {
         todo!("handle")
     }
 
+    // Are the costs derived from the residual in two commodities?
+    let mut is_exchange = false;
     if null_post.is_null() && balance.amounts.len() == 2 {
         // When an xact involves two different commodities (regardless of how
         // many posts there are) determine the conversion ratio by dividing the
@@ -182,7 +184,11 @@ pub fn finalize(xact_ptr: *const Xact, journal: &mut Journal) {
             let mut y = const_bal.amounts.iter().nth(1).unwrap();
 
             // if x && y
-            if !x.is_zero() && !y.is_zero() {
+            // One commodity is given for the other, hence the opposite signs.
+            let opposite = x.quantity.is_sign_positive() != y.quantity.is_sign_positive();
+            if !x.is_zero() && !y.is_zero() && opposite {
+                is_exchange = true;
+
                 if x.get_commodity() != top_post.unwrap().amount.unwrap().get_commodity() {
                     (x, y) = (y, x);
                 }
@@ -204,6 +210,11 @@ pub fn finalize(xact_ptr: *const Xact, journal: &mut Journal) {
         }
     }
 
+    // All the amounts are given. They must balance.
+    if null_post.is_null() && !is_exchange && balance.amounts.iter().any(|amt| !amt.is_zero()) {
+        panic!("Transaction does not balance");
+    }
+
     // if (has_date())
     {
         for p in &mut xact.posts {
-- 
2.43.0


From f24f5c9aefc093c9014ca32e8b90767b838b944e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:34 +0000
Subject: [PATCH 16/37] fix: the date of a rate over several hops does not
 depend on the current time

With all the prices in the future, the date was the moment of the lookup instead
of the least recent date of the intermediate rates.
---
 src/history.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/history.rs b/src/history.rs
index 1306cc5..df7f831 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -16,7 +16,7 @@ use std::{
     ops::{Deref, DerefMut},
 };
 
-use chrono::{Local, NaiveDateTime};
+use chrono::NaiveDateTime;
 use petgraph::{algo::astar, stable_graph::NodeIndex, Graph};
 
 use crate::{
@@ -155,7 +155,7 @@ impl CommodityHistory {
     fn calculate_rate(&self, source: CommodityIndex, target_ptr: *const Commodity, path: Vec<NodeIndex>) -> (NaiveDateTime, Quantity) {
         let mut result = Amount::new(Quantity::ONE, Some(target_ptr));
         let mut temp_source = source;
-        let mut least_recent: NaiveDateTime = Local::now().naive_local();
+        let mut least_recent: NaiveDateTime = NaiveDateTime::MAX;
 
         // iterate through intermediate rates and calculate (multiply).
         for temp_target in path {
-- 
2.43.0


From e2311cffaf2491ce60776e3402e6f6fafc6d4038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:35 +0000
Subject: [PATCH 17/37] fix: the CLI took the program name for the command

---
 src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 21b47eb..a1827e3 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -6,7 +6,8 @@ use ledger_rs_lib;
 fn main() {
     println!("Hello, Ledger-rs!");
 
-    let args: Vec<String> = env::args().collect();
+    // The first argument is the name of the program.
+    let args: Vec<String> = env::args().skip(1).collect();
     println!("You requested {:?}", args);
 
     // let args = read_command_arguments(args);
-- 
2.43.0


From c94f8f0da320c8220d94828fc17dfda39214c214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:38 +0000
Subject: [PATCH 18/37] fix: Journal::read returns the number of transactions
 it parsed

It returned the number of all the transactions in the journal, including those
from the sources that were read before.
---
 src/journal.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/journal.rs b/src/journal.rs
index 69bfea0..aba01ab 100644
--- a/src/journal.rs
+++ b/src/journal.rs
@@ -112,10 +112,12 @@ impl Journal {
     ///
     /// returns number of transactions parsed
     pub fn read<T: Read>(&mut self, source: T) -> usize {
+        let previous_count = self.xacts.len();
+
         // read_textual
         parser::read_into_journal(source, self);
 
-        self.xacts.len()
+        self.xacts.len() - previous_count
     }
 }
 
-- 
2.43.0


From 96420a81578015db19a4d1a328decd5b8512ca00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:59 +0000
Subject: [PATCH 19/37] fix: report an include file that does not exist

The transactions of a mistyped include were silently missing from the journal.
---
 src/parser.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 1203c61..c55afdf 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -366,20 +366,21 @@ impl<'j, T: Read> Parser<'j, T> {
 
         // TODO: resolve glob, i.e *.ledger
 
-        // let mut file_found = false;
+        let mut file_found = false;
         let parent_path = filename.parent().unwrap();
         if parent_path.exists() {
             if filename.is_file() {
                 // let base = filename.file_name();
+                file_found = true;
 
                 // read file.
                 parse_file(filename.to_str().unwrap(), self.journal);
             }
         }
 
-        // if !file_found {
-        //     panic!("Include file not found");
-        // }
+        if !file_found {
+            panic!("Include file not found: {:?}", filename);
+        }
     }
 
     /// Parses the trailing note from the buffer.
-- 
2.43.0


From dda8289d8034959d9eac197593d58e4095322b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:01 +0000
Subject: [PATCH 20/37] fix: do not present a partially read source as a
 complete journal

On a read error, or text that is not valid UTF-8, the rest of the journal was
left out, and a transaction cut in the middle was finalized from the posts read
so far.
---
 src/parser.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index c55afdf..154f386 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -112,8 +112,7 @@ impl<'j, T: Read> Parser<'j, T> {
         loop {
             match self.reader.read_line(&mut self.buffer) {
                 Err(err) => {
-                    println!("Error: {:?}", err);
-                    break;
+                    panic!("Error reading the journal: {:?}", err);
                 }
                 Ok(0) => {
                     // end of file
@@ -280,8 +279,7 @@ impl<'j, T: Read> Parser<'j, T> {
             self.buffer.clear(); // empty the buffer before reading
             match self.reader.read_line(&mut self.buffer) {
                 Err(e) => {
-                    println!("Error: {:?}", e);
-                    break;
+                    panic!("Error reading the journal: {:?}", e);
                 }
                 Ok(0) => {
                     // end of file
-- 
2.43.0


From 20c42570cc495817424c7447ea173a21f2915b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:03 +0000
Subject: [PATCH 21/37] fix: a trailing note is added to the existing note, not
 replacing it

Only the last line of several comment lines was kept, and the note in the
transaction header was lost.
---
 src/post.rs | 6 +++++-
 src/xact.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/post.rs b/src/post.rs
index 9c70026..2d1f24a 100644
--- a/src/post.rs
+++ b/src/post.rs
@@ -48,7 +48,11 @@ impl Post {
     }
 
     pub fn add_note(&mut self, note: &str) {
-        self.note = Some(note.into());
+        self.note = match &self.note {
+            // append to the existing note
+            Some(existing) => Some(format!("{}\n{}", existing, note)),
+            None => Some(note.into()),
+        };
     }
 }
 
diff --git a/src/xact.rs b/src/xact.rs
index c939a9a..decaa53 100644
--- a/src/xact.rs
+++ b/src/xact.rs
@@ -72,7 +72,11 @@ impl Xact {
     }
 
     pub fn add_note(&mut self, note: &str) {
-        self.note = Some(note.into());
+        self.note = match &self.note {
+            // append to the existing note
+            Some(existing) => Some(format!("{}\n{}", existing, note)),
+            None => Some(note.into()),
+        };
     }
 
     /// Adds the post to the collection and returns the reference to it.
-- 
2.43.0


From 42fddfaaeca0b863afb6e28f2d3fb550128661cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:05 +0000
Subject: [PATCH 22/37] fix: the basis cost of an exchange without a lot price
 is the final cost

It was zero for every commodity that has been used in a posting, since the pool
keeps an annotation, with no price, for those.
---
 src/pool.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/pool.rs b/src/pool.rs
index a19b07b..f535c16 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -204,10 +204,8 @@ impl CommodityPool {
         };
 
         // "exchange: basis-cost    = "
-        if let Some(annotation) = annotation_opt {
-            if let Some(ann_price) = annotation.price {
-                breakdown.basis_cost = ann_price * (*amount);
-            }
+        if let Some(ann_price) = annotation_opt.and_then(|annotation| annotation.price) {
+            breakdown.basis_cost = ann_price * (*amount);
         } else {
             breakdown.basis_cost = breakdown.final_cost;
         }
-- 
2.43.0


From 370f342d64c40c85d47ca4982d49f0aa74783712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:22 +0000
Subject: [PATCH 23/37] fix: reject a posting with a cost but without an amount

---
 src/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 154f386..2dd57be 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -479,9 +479,12 @@ fn parse_cost(
     journal: &mut Journal,
 ) -> Option<Amount> {
     let has_cost = !tokens.cost_quantity.is_empty() || !tokens.cost_symbol.is_empty();
-    if !has_cost || amount.is_none() {
+    if !has_cost {
         return None;
     }
+    if amount.is_none() {
+        panic!("Posting has a cost but no amount");
+    }
 
     // parse cost (per-unit vs total)
     let cost_result = parse_amount_parts(tokens.cost_quantity, tokens.cost_symbol, journal);
-- 
2.43.0


From f7a75203d473ffc175fe2c54bd2ff63f96ef049f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:24 +0000
Subject: [PATCH 24/37] fix: do not ignore the text after the amount or the
 cost of a posting

---
 src/scanner.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index 50b85ad..40e508d 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -378,12 +378,7 @@ fn scan_symbol(input: &str) -> (&str, &str) {
 fn scan_cost(input: &str) -> CostTokens {
     // @ or () or @@
     if input.chars().peekable().peek() != Some(&'@') {
-        return CostTokens {
-            quantity: "",
-            symbol: "",
-            is_per_unit: false,
-            remainder: "",
-        };
+        panic!("Unexpected text after the amount: {:?}", input);
     }
 
     // We have a price.
@@ -398,6 +393,9 @@ fn scan_cost(input: &str) -> CostTokens {
     };
     let input = &input[first_char..].trim_start();
     let (amount_tokens, input) = scan_amount(input);
+    if !input.is_empty() {
+        panic!("Unexpected text after the cost: {:?}", input);
+    }
 
     CostTokens {
         quantity: amount_tokens.quantity,
-- 
2.43.0


From 79c1c1f312a0b58ece194590cd680154f8418edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:26 +0000
Subject: [PATCH 25/37] fix: reject a malformed lot price instead of dropping
 it

---
 src/annotate.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/annotate.rs b/src/annotate.rs
index e7e917b..9619baf 100644
--- a/src/annotate.rs
+++ b/src/annotate.rs
@@ -9,7 +9,7 @@
 use anyhow::Error;
 use chrono::NaiveDate;
 
-use crate::{amount::{Amount, Quantity}, parser::ISO_DATE_FORMAT, journal::Journal};
+use crate::{amount::Amount, parser::{parse_amount_parts, ISO_DATE_FORMAT}, journal::Journal};
 
 pub struct Annotation {
     /// Price per unit. The {} value in the Lot syntax.
@@ -32,14 +32,8 @@ impl Annotation {
 
     pub fn parse(date: &str, quantity: &str, commodity_symbol: &str, journal: &mut Journal) -> Result<Self, Error> {
         // parse amount
-        let commodity = journal.commodity_pool.find_or_create(commodity_symbol, None);
+        let price = parse_amount_parts(quantity, commodity_symbol, journal);
 
-        let price = if let Some(quantity) = Quantity::from_str(quantity) {
-            Some(Amount::new(quantity, Some(commodity)))
-        } else {
-            None
-        };
-        
         let result = Self {
             price: price,
             date: match date.is_empty() {
-- 
2.43.0


From 22756f684760fcee06e3bcf06e36af35a3c7904b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:26 +0000
Subject: [PATCH 26/37] verif: read-only access to the commodities and prices,
 guarded by --cfg ledger_verif

---
 src/lib.rs   |  2 ++
 src/verif.rs | 51 +++++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 53 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/lib.rs b/src/lib.rs
index 8292147..31f5706 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -57,6 +57,8 @@ pub mod report;
 pub mod scanner;
 pub mod utilities;
 mod value;
+#[cfg(ledger_verif)]
+pub mod verif;
 pub mod xact;
 
 /// An entry point for the CLIs.
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..3378149
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,51 @@
+/*!
+ * Read-only access to the private parts of the model, for the verification harness.
+ *
+ * Compiled only with `--cfg ledger_verif`.
+ */
+
+use chrono::NaiveDateTime;
+use petgraph::visit::EdgeRef;
+
+use crate::{amount::Amount, amount::Quantity, commodity::Commodity, pool::CommodityPool};
+
+/// The symbols of all the commodities in the pool.
+pub fn symbols(pool: &CommodityPool) -> Vec<String> {
+    pool.commodities.keys().cloned().collect()
+}
+
+/// The addresses of the commodities in the price graph.
+pub fn graph_nodes(pool: &CommodityPool) -> Vec<*const Commodity> {
+    pool.commodity_history.node_weights().copied().collect()
+}
+
+/// All the recorded prices: (commodity, commodity of the price, time, quantity).
+pub fn prices(
+    pool: &CommodityPool,
+) -> Vec<(*const Commodity, *const Commodity, NaiveDateTime, Quantity)> {
+    let graph = &pool.commodity_history;
+    let mut result = vec![];
+    for edge in graph.edge_references() {
+        for (&when, &quantity) in edge.weight() {
+            result.push((graph[edge.source()], graph[edge.target()], when, quantity));
+        }
+    }
+    result
+}
+
+/// The price of one commodity in terms of the other.
+pub fn find_price(
+    pool: &CommodityPool,
+    source: &str,
+    target: &str,
+    moment: NaiveDateTime,
+) -> Option<(NaiveDateTime, Amount)> {
+    pool.commodity_history
+        .find_price(
+            pool.find(source)?,
+            pool.find(target)?,
+            moment,
+            NaiveDateTime::MIN,
+        )
+        .map(|point| (point.when, point.price))
+}
-- 
2.43.0


From d48194eddc8742f615a2f8311164b83661050c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:44 +0000
Subject: [PATCH 27/37] fix: a number without the integer part right after the
 symbol, i.e. $.5

---
 src/scanner.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index 40e508d..a8ecbf5 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -359,8 +359,11 @@ fn scan_symbol(input: &str) -> (&str, &str) {
     // TODO: check for valid double quotes
 
     for (i, c) in input.char_indices() {
-        // Return when a separator or a number is found.
-        if c.is_whitespace() || c == '@' || c.is_digit(10) || c == '-' {
+        // Return when a separator or a number is found. The number can start with the decimal point.
+        let is_number = c.is_digit(10)
+            || c == '-'
+            || (c == '.' && input[i + 1..].starts_with(|next: char| next.is_digit(10)));
+        if c.is_whitespace() || c == '@' || is_number {
             return (&input[..i], &input[i..].trim_start());
         }
     }
-- 
2.43.0


From fc121165317ea014a6037639760b7ba0757101af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:46 +0000
Subject: [PATCH 28/37] fix: parse_amount does not ignore the text after the
 amount

---
 src/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 2dd57be..b4f86ac 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -61,7 +61,10 @@ pub fn parse_datetime(iso_str: &str) -> Result<NaiveDateTime, anyhow::Error> {
 }
 
 pub fn parse_amount(amount_str: &str, journal: &mut Journal) -> Option<Amount> {
-    let (tokens, _) = scanner::scan_amount(amount_str);
+    let (tokens, remainder) = scanner::scan_amount(amount_str);
+    if !remainder.is_empty() {
+        panic!("Unexpected text after the amount: {:?}", remainder);
+    }
     parse_amount_parts(tokens.quantity, tokens.symbol, journal)
 }
 
-- 
2.43.0


From 5b3dc3c1162578ad9eb945191e9f3b0f04f5acb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:48 +0000
Subject: [PATCH 29/37] fix: do not ignore the text after the lot price or the
 lot date

---
 src/scanner.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index a8ecbf5..f27849e 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -294,7 +294,10 @@ fn scan_annotations(input: &str) -> (AnnotationTokens, &str) {
             // todo: is it fixated price {=xyz}
 
             let (amount, rest) = scan_until(&input[1..], '}');
-            let (amount_tokens, _) = scan_amount(amount);
+            let (amount_tokens, remainder) = scan_amount(amount);
+            if !remainder.is_empty() {
+                panic!("Unexpected text after the lot price: {:?}", remainder);
+            }
 
             result.quantity = amount_tokens.quantity;
             result.symbol = amount_tokens.symbol;
@@ -308,8 +311,11 @@ fn scan_annotations(input: &str) -> (AnnotationTokens, &str) {
                 panic!("Commodity specifies more than one date");
             }
             let (date_input, rest) = scan_until(&input[1..], ']');
-            let (date, _) = scan_date(date_input);
-            
+            let (date, remainder) = scan_date(date_input);
+            if !remainder.trim().is_empty() {
+                panic!("Unexpected text after the lot date: {:?}", remainder);
+            }
+
             result.date = date;
 
             // skip the closing ]
-- 
2.43.0


From 1624de68d99b16cf2cbb8cc2e3620943f185a47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:07 +0000
Subject: [PATCH 30/37] fix: only P lines are price directives

A line such as "i 2023-01-01 EUR 5 USD" was read as a price directive.
---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index b4f86ac..bf62ca3 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -180,7 +180,7 @@ impl<'j, T: Read> Parser<'j, T> {
                     return Ok(());
                 }
 
-                let c = 'P';
+                let c = self.buffer.chars().next().unwrap();
                 match c {
                         // ACDNPY
                         'P' => {
-- 
2.43.0


From cd0727ad0f3865a7327b3763936c7590a81a1273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:10 +0000
Subject: [PATCH 31/37] fix: an account name ending with a colon is not the
 name of the parent account

---
 src/account.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/account.rs b/src/account.rs
index 6aa5e7d..5a4aed6 100644
--- a/src/account.rs
+++ b/src/account.rs
@@ -108,15 +108,15 @@ impl Account {
 
         let mut account: *const Account;
         let first: &str;
-        let rest: &str;
+        let rest: Option<&str>;
         if let Some(separator_index) = name.find(':') {
             // Contains separators
             first = &name[..separator_index];
-            rest = &name[separator_index + 1..];
+            rest = Some(&name[separator_index + 1..]);
         } else {
             // take all
             first = name;
-            rest = "";
+            rest = None;
         }
 
         if let Some(account_opt) = self.accounts.get(first) {
@@ -131,7 +131,7 @@ impl Account {
         }
 
         // Search recursively.
-        if !rest.is_empty() {
+        if let Some(rest) = rest {
             let acct = self.get_account_mut(account);
             account = acct.find_or_create(rest, auto_create)?;
         }
-- 
2.43.0


From 92966b98357abb24d97835461e80fd1dc1e20bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:28 +0000
Subject: [PATCH 32/37] fix: the full name of an account keeps the empty parts
 of the name

---
 src/account.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/account.rs b/src/account.rs
index 5a4aed6..68f7c44 100644
--- a/src/account.rs
+++ b/src/account.rs
@@ -66,7 +66,8 @@ impl Account {
             // If there is a parent account, use it.
             first = self.get_account_mut(first.parent);
 
-            if !first.name.is_empty() {
+            // The root account has no name.
+            if !first.parent.is_null() {
                 fullname = format!("{}:{}", &first.name, fullname);
             }
         }
-- 
2.43.0


From c3dbd08ee638b0e2b770d31e44397261f7c50683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:55 +0000
Subject: [PATCH 33/37] fix: an option directive, which is not supported, is
 not silently ignored

---
 src/parser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser.rs b/src/parser.rs
index bf62ca3..96ac4dc 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -161,6 +161,7 @@ impl<'j, T: Read> Parser<'j, T> {
 
             '-' => {
                 // option_directive
+                todo!("option directive")
             }
 
             '0' | '1' | '2' | '3' | '4' | '5' | '6' | '7' | '8' | '9' => {
-- 
2.43.0


From a1bb5dc3f1cccb861df30099731f1b5fbf36df0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:08 +0000
Subject: [PATCH 34/37] fix: only the accounts command is the accounts report

---
 src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 31f5706..90dc19e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -99,6 +99,9 @@ fn execute_command(commands: Vec<String>, input_options: InputOptions) -> Vec<St
     // execute command
     match verb.chars().next().unwrap() {
         'a' => {
+            if verb != "accounts" {
+                todo!("?")
+            }
             // accounts?
             // TODO: replace this temporary report
             let mut output = report::report_accounts(&journal);
-- 
2.43.0


From 7f2485d029d93f314d1c37679cc9ae45ad40c595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:03 +0000
Subject: [PATCH 35/37] fix: a lone dash is not a valid option

---
 src/option.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/option.rs b/src/option.rs
index 0ae6e8f..3c6f032 100644
--- a/src/option.rs
+++ b/src/option.rs
@@ -39,14 +39,16 @@ pub fn process_arguments(args: Vec<String>) -> (Vec<String>, InputOptions) {
         // otherwise, it's an argument
         // if an item contains "-f", it is a real argument
 
+        if arg.len() == 1 {
+            panic!("illegal option {}", arg)
+        }
+
         // long option
         if arg.starts_with("--") {
             // long argument
             if arg.len() == 2 {
                 // it's a --, ending options processing
                 todo!("handle this case?")
-            } else if arg.len() == 1 {
-                panic!("illegar option {}", arg)
             }
 
             // todo: check if there is '=' contained
-- 
2.43.0


From 2a76e918c6cbf72328253522a2878beeb6e73388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:05 +0000
Subject: [PATCH 36/37] fix: the argument of a directive is the rest of the
 line

---
 src/parser.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 96ac4dc..3017b0f 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -211,7 +211,8 @@ impl<'j, T: Read> Parser<'j, T> {
         let Some(directive) = iter.next() else {
             panic!("no directive?")
         };
-        let argument = iter.next();
+        // The argument is the rest of the line. File names can contain spaces.
+        let argument = self.buffer.trim().strip_prefix(directive).unwrap_or("").trim();
 
         // todo: check arguments for directives that require one
         // match directive {
@@ -233,7 +234,10 @@ impl<'j, T: Read> Parser<'j, T> {
             // bcde
             'i' => match directive {
                 "include" => {
-                    let own_argument = argument.unwrap().to_owned();
+                    if argument.is_empty() {
+                        panic!("The include directive requires an argument!");
+                    }
+                    let own_argument = argument.to_owned();
                     self.include_directive(&own_argument);
                     return true;
                 }
-- 
2.43.0


From fac5ab83247691a79427a52e38336a782985f56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:34 +0000
Subject: [PATCH 37/37] fix: an auxiliary date that is missing or has two equal
 signs is malformed

---
 src/scanner.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index f27849e..39a8907 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -145,13 +145,14 @@ fn tokenize_aux_date(input: &str) -> (&str, &str) {
         Some('=') => {
             // have aux date.
             // skip '=' sign
-            let input = input.trim_start_matches('=');
+            let input = &input[1..];
 
             // find the next separator
-            match input.find(' ') {
-                Some(i) => return (&input[..i], &input[i..]),
-                None => return (input, ""),
-            };
+            let i = input.find(' ').unwrap_or(input.len());
+            if i == 0 {
+                panic!("No auxiliary date after the = sign");
+            }
+            return (&input[..i], &input[i..]);
         }
         _ => {
             // end of line, or character other than '='
-- 
2.43.0

