------------------------------- MODULE Ledger ------------------------------
(* The state of a journal and its transitions. A transition consumes one line *)
(* of text (StepLine), the end of a source (EndSource), or registers an       *)
(* account. The state is a record, so that the same transitions serve the     *)
(* bounded model (MC), the behaviour generator (Gen) and the conformance      *)
(* check of recorded executions (Trace), which holds several journals.        *)
(*                                                                            *)
(*  mode    "top" or "xact": where the next line is read                      *)
(*  status  "ok"; "rej": the source was rejected; "un": left open             *)
(*  may     the source may be rejected (see Scan)                             *)
(*  why     the reason of the rejection                                       *)
(*  xacts   the accepted transactions, in order                               *)
(*  cur     the transaction being read                                        *)
(*  accts   the accounts, as paths; the root << >> always exists              *)
(*  links   for each account the postings linked to it, as <<xact, posting>>  *)
(*  pool    the commodity symbols                                             *)
(*  prices  <<symbol, symbol, moment>> -> [num, den, src, u]: num / den       *)
(*  lots    symbol -> the annotation of its first posting                     *)
(*  lotted  the symbols which ever had a lot price                            *)
(*  dirty   something was rejected before, which may have left accounts,      *)
(*          commodities or prices behind (never postings)                     *)
EXTENDS Scan, TLC, FiniteSets

EmptyFn == [x \in {} |-> 0]

NoXact == [z |-> FALSE, date |-> NoDate, aux |-> None, payee |-> << >>, note |-> None, tn |-> FALSE,
           posts |-> << >>]

Empty == [mode |-> "top", status |-> "ok", may |-> FALSE, why |-> "", xacts |-> << >>,
          cur |-> NoXact, accts |-> {<< >>}, links |-> EmptyFn, pool |-> {},
          prices |-> EmptyFn, lots |-> EmptyFn, lotted |-> {}, dirty |-> FALSE]

Reject(s, reason) == [s EXCEPT !.status = "rej", !.why = reason]
Open(s) == [s EXCEPT !.status = "un"]

Get(f, k, dflt) == IF k \in DOMAIN f THEN f[k] ELSE dflt
Put(f, k, v) == (k :> v) @@ f

Ancestors(path) == {SubSeq(path, 1, i) : i \in 0..Len(path)}
Register(s, path) == [s EXCEPT !.accts = @ \cup Ancestors(path)]

Syms(c) == IF c = << >> THEN {} ELSE {c}
OptSym(o) == IF o = None THEN {} ELSE Syms(o[1].c)

UNKNOWN_PAYEE == <<85, 110, 107, 110, 111, 119, 110, 32, 80, 97, 121, 101, 101>>

-----------------------------------------------------------------------------
(* Transactions *)

Begin(s, h) ==
    [s EXCEPT !.mode = "xact",
              !.cur = [NoXact EXCEPT !.date = h.date, !.aux = h.aux,
                         !.payee = IF h.payee = << >> THEN UNKNOWN_PAYEE ELSE h.payee,
                         !.note = h.note]]

AddNote(old, note) == Some(IF old = None THEN note ELSE old[1] \o <<LF>> \o note)

Note(s, note) ==
    IF note = << >> THEN s
    ELSE IF s.cur.posts = << >> THEN [s EXCEPT !.cur.note = AddNote(@, note), !.cur.tn = TRUE]
    ELSE [s EXCEPT !.cur.posts[Len(s.cur.posts)].note = AddNote(@, note)]

(* given cost: unit price times quantity, or the total as written *)
GivenCost(p) ==
    IF p.cost = None THEN None
    ELSE Some([q |-> IF p.per THEN Mul(p.cost[1].q, p.amt[1].q) ELSE p.cost[1].q,
               c |-> p.cost[1].c])

Posting(s, p) ==
    LET cost == GivenCost(p)
        post == [acct |-> p.acct, amt |-> p.amt, cost |-> cost, note |-> None,
                 inote |-> p.inote, elided |-> p.amt = None, imp |-> None,
                 lot |-> p.lot]
        sym  == OptSym(p.amt)
        s1   == [Register(s, p.acct) EXCEPT
                   !.cur.posts = Append(@, post),
                   !.pool = @ \cup sym \cup OptSym(p.cost) \cup OptSym(p.lot),
                   !.lots = IF sym = {} \/ p.amt[1].c \in DOMAIN @ THEN @
                            ELSE Put(@, p.amt[1].c, p.lot),
                   !.lotted = IF p.lot = None THEN @ ELSE @ \cup sym]
    IN  IF cost # None /\ ~Repr(cost[1].q) THEN Open(s1) ELSE s1

(* The value of a posting towards the balance of its transaction. *)
Value(p) ==
    IF p.cost = None THEN p.amt[1]
    ELSE IF Sign(p.amt[1].q) < 0 /\ Sign(p.cost[1].q) > 0
         THEN [q |-> Neg(p.cost[1].q), c |-> p.cost[1].c]
         ELSE p.cost[1]

SumOf(vals, c) == DSum([i \in 1..Len(vals) |-> IF vals[i].c = c THEN vals[i].q ELSE DZero])

(* The sum of the magnitudes fits, hence every intermediate sum is exact. *)
Fits(vals) == \A c \in {vals[i].c : i \in 1..Len(vals)} :
                 Repr(DSum([i \in 1..Len(vals) |-> IF vals[i].c = c THEN Abs(vals[i].q) ELSE DZero]))

PriceOf(s, p, date) ==
    LET num == IF p.imp # None THEN p.imp[1].num ELSE Abs(p.cost[1].q)
        den == IF p.imp # None THEN p.imp[1].den
               ELSE IF IsZero(p.amt[1].q) THEN DOne ELSE Abs(p.amt[1].q)
    IN  IF p.cost = None THEN s
        ELSE IF IsZero(num) \/ (p.imp # None /\ IsZero(p.amt[1].q)) THEN s
        ELSE IF ~Divides(num, den) \/ ~Divides(den, num) THEN Open(s)
        ELSE [s EXCEPT !.prices = Put(@, <<p.amt[1].c, p.cost[1].c, date \o Midnight>>,
                                      [num |-> num, den |-> den, src |-> "cost",
                                       u |-> IF p.imp # None THEN Abs(p.amt[1].q) ELSE DOne])]

Commit(s, posts) ==
    LET xi == Len(s.xacts) + 1
        s1 == [s EXCEPT !.mode = "top", !.cur = NoXact,
                        !.xacts = Append(@, [s.cur EXCEPT !.posts = posts])]
        s2 == FoldLeft(LAMBDA a, p : PriceOf(a, p, s.cur.date), s1, posts)
    IN  [s2 EXCEPT !.links =
           FoldLeft(LAMBDA f, i : Put(f, posts[i].acct, Append(Get(f, posts[i].acct, << >>), <<xi, i>>)),
                    @, [i \in 1..Len(posts) |-> i])]

(* The end of a transaction: omitted amounts, implied costs, balance check. *)
Finalize(s) ==
    LET posts == s.cur.posts
        n     == Len(posts)
        nulls == {i \in 1..n : posts[i].amt = None}
        vals  == LET given == SelectSeq(posts, LAMBDA p : p.amt # None)
                 IN  [i \in 1..Len(given) |-> Value(given[i])]
        keys  == {vals[i].c : i \in 1..Len(vals)}
        res   == [c \in keys |-> SumOf(vals, c)]
        left  == {c \in keys : ~IsZero(res[c])}
        costs == \E i \in 1..n : posts[i].cost # None
        same  == \E i \in 1..n : posts[i].cost # None /\ posts[i].cost[1].c = posts[i].amt[1].c
    IN  CASE n = 0 -> Commit([s EXCEPT !.may = TRUE], posts)
          [] n = 1 -> IF nulls # {} THEN Open(s)
                      ELSE IF same THEN Reject(s, "samecomm")
                      ELSE IF left = {} THEN Commit([s EXCEPT !.may = TRUE], posts)
                      ELSE Reject(s, "unbalanced")
          [] Cardinality(nulls) > 1 -> Reject(s, "elided")
          [] ~Fits(vals) /\ (\A i \in 1..n : posts[i].amt # None => Repr(posts[i].amt[1].q)) -> Open(s)
          [] same -> Reject(s, "samecomm")
          [] nulls # {} ->
               IF Cardinality(left) > 1 THEN Reject(s, "unbalanced")
               ELSE IF Cardinality(keys) # 1 /\ left = {} THEN Open(s)
               ELSE LET i == CHOOSE i \in nulls : TRUE
                        c == CHOOSE c \in (IF left = {} THEN keys ELSE left) : TRUE
                    IN  Commit([s EXCEPT !.may = @ \/ Cardinality(keys) # 1], [posts EXCEPT ![i].amt = Some([q |-> Neg(res[c]), c |-> c])])
          [] left = {} -> Commit(s, posts)
          [] /\ Cardinality(keys) = 2 /\ left = keys /\ ~costs
             /\ \E a, b \in keys : Sign(res[a]) > 0 /\ Sign(res[b]) < 0 ->
               IF << >> \in keys THEN Open(s)
               ELSE LET x == posts[1].amt[1].c
                        y == CHOOSE c \in keys : c # x
                        imply(p) == IF p.amt[1].c # x THEN p
                                    ELSE [p EXCEPT !.cost = Some([q |-> DZero, c |-> y]),
                                                   !.imp = Some([num |-> Abs(res[y]), den |-> Abs(res[x])])]
                        fits(p) == p.amt[1].c = x => Divides(Mul(p.amt[1].q, res[y]), res[x])
                    IN  IF ~Divides(res[y], res[x]) \/ \E i \in 1..n : ~fits(posts[i]) THEN Open(s)
                        ELSE Commit(s, [i \in 1..n |-> imply(posts[i])])
          [] Cardinality(left) = 2 /\ ~costs /\ keys # left
             /\ \E a, b \in left : Sign(res[a]) > 0 /\ Sign(res[b]) < 0 -> Open(s)
          [] OTHER -> Reject(s, "unbalanced")

-----------------------------------------------------------------------------
(* Sources *)

Directive(s, tok) ==
    [s EXCEPT !.pool = @ \cup Syms(tok.s) \cup Syms(tok.d),
              !.prices = Put(@, <<tok.s, tok.d, tok.t>>,
                             [num |-> tok.q, den |-> DOne, src |-> "P", u |-> DOne])]

EndSource(s) == IF s.status = "ok" /\ s.mode = "xact" THEN Finalize(s) ELSE s

Soft(s, tok) == IF tok.cls = MAY THEN [s EXCEPT !.may = TRUE] ELSE s

(* files: a sequence of [name, text], for the include directive *)
RECURSIVE StepTop(_, _, _), ReadLines(_, _, _)

StepTop(s, tok, files) ==
    CASE tok.cls = UN -> Open(s)
      [] tok.cls = REJ -> Reject(s, tok.k)
      [] tok.k \in {"blank", "comment"} -> s
      [] tok.k = "header" -> Begin(Soft(s, tok), tok)
      [] tok.k = "price" -> Directive(Soft(s, tok), tok)
      [] tok.k = "include" ->
           LET i == SelectInSeq(files, LAMBDA f : f.name = tok.name)
           IN  IF i = 0 THEN Reject(s, "missing")
               ELSE IF files[i].bad THEN Reject(ReadLines(s, Lines(files[i].text), files), "unreadable")
               ELSE EndSource(ReadLines(s, Lines(files[i].text), files))

StepXact(s, tok, line, files) ==
    CASE tok.cls = UN -> Open(s)
      [] tok.cls = REJ -> Reject(s, tok.k)
      [] tok.k = "end" -> Finalize(Soft(s, tok))
      [] tok.k = "note" -> Note(Soft(s, tok), tok.note)
      [] tok.k = "post" -> Posting(Soft(s, tok), tok)
      [] tok.k = "top" ->
           LET f == Finalize([s EXCEPT !.may = TRUE])
           IN  IF f.status = "ok" THEN StepTop(f, ScanTopLine(line), files) ELSE f

StepLine(s, line, files) ==
    IF s.status # "ok" THEN s
    ELSE IF s.mode = "top" THEN StepTop(s, ScanTopLine(line), files)
    ELSE StepXact(s, ScanXactLine(line), line, files)

ReadLines(s, lines, files) == FoldLeft(LAMBDA a, l : StepLine(a, l, files), s, lines)

(* One read of a whole source. *)
ReadText(s, text, files) == EndSource(ReadLines(s, Lines(text), files))

(* A transaction that was rejected may stay in the list of the transactions, without links. *)
Zombie == [NoXact EXCEPT !.z = TRUE]

(* After a rejected read: the journal goes on without the rejected transaction. *)
Recover(s) == [s EXCEPT !.status = "ok", !.mode = "top", !.cur = NoXact, !.may = FALSE,
                        !.why = "", !.dirty = TRUE]

-----------------------------------------------------------------------------
(* Queries. Balances are sequences of [q, c], one entry per commodity.         *)

BalAdd(bal, a) ==
    LET i == SelectInSeq(bal, LAMBDA b : b.c = a.c)
    IN  IF i = 0 THEN Append(bal, [q |-> a.q, c |-> a.c])
        ELSE [bal EXCEPT ![i].q = Add(@, a.q)]

BalSum(as) == FoldLeft(BalAdd, << >>, as)

(* equal as functions of the commodity, with the same commodities *)
BalEq(x, y) == /\ Len(x) = Len(y)
               /\ \A i \in 1..Len(x) : \E j \in 1..Len(y) : x[i].c = y[j].c /\ DEq(x[i].q, y[j].q)
               /\ \A i, j \in 1..Len(y) : i # j => y[i].c # y[j].c

BalAll(bals) == FoldLeft(LAMBDA a, b : FoldLeft(BalAdd, a, b), << >>, bals)

PostAt(s, l) == s.xacts[l[1]].posts[l[2]]

Own(s, path) == LET ls == Get(s.links, path, << >>)
                IN  BalSum([i \in 1..Len(ls) |-> PostAt(s, ls[i]).amt[1]])

Children(s, path) == {p \in s.accts : Len(p) = Len(path) + 1 /\ SubSeq(p, 1, Len(path)) = path}

SortPaths(P) == SetToSortSeq(P, PathLt)

RECURSIVE Total(_, _)
Total(s, path) ==
    LET ch == SortPaths(Children(s, path))
    IN  BalAll(Append([i \in 1..Len(ch) |-> Total(s, ch[i])], Own(s, path)))

(* depth first, siblings in order *)
RECURSIVE Walk(_, _)
Walk(s, path) == LET ch == SortPaths(Children(s, path))
                 IN  <<path>> \o FlattenSeq([i \in 1..Len(ch) |-> Walk(s, ch[i])])

Find(s, path) == IF path \in s.accts THEN Some(path) ELSE None
=============================================================================
