-------------------------------- MODULE Props ------------------------------
(* The properties, as predicates over an abstract journal: what can be        *)
(* observed of a journal. The bounded model evaluates them on the states of   *)
(* the specification (ObsOf), the conformance check on the observations       *)
(* recorded from the implementation.                                          *)
(*                                                                            *)
(*  o.xacts   [date, aux, payee, note, posts: [acct, amt, cost, note, xok]]   *)
(*  o.accts   [path, name, full, links, own, total], depth first              *)
(*  o.nodes   the number of accounts in the tree                              *)
(*  o.pool, o.prices, o.report, o.areport                                     *)
(* Z is the set of the positions of rejected transactions in o.xacts.         *)
EXTENDS Ledger

Bag(seq) == [x \in {seq[i] : i \in 1..Len(seq)} |-> Cardinality({i \in 1..Len(seq) : seq[i] = x})]

Live(o, Z) == {i \in 1..Len(o.xacts) : i \notin Z}

(* labels of what fails *)
If(cond, label) == IF cond THEN {} ELSE {label}

-----------------------------------------------------------------------------
(* C01 *)
AllAmounts(x) == \A i \in 1..Len(x.posts) : x.posts[i].amt # None

Values(x) == [i \in 1..Len(x.posts) |-> Value(x.posts[i])]

(* loose: the transaction may have costs that were derived by a division *)
BalancedX(x, loose) ==
    LET v == Values(x)
        mass(c) == DSum([i \in 1..Len(v) |-> IF v[i].c = c THEN Abs(v[i].q) ELSE DZero])
        units == DSum([i \in 1..Len(v) |-> Abs(x.posts[i].amt[1].q)])
    IN  \A c \in {v[i].c : i \in 1..Len(v)} :
           LET r == SumOf(v, c)
           IN  \/ IsZero(r)
               \/ loose /\ \/ DCmp(Dec(FALSE, MagTen(r.m, 18), r.s), mass(c)) <= 0
                           \/ DCmp(Dec(FALSE, MagTen(r.m, 26), r.s), Add(units, DOne)) <= 0

Balanced(o, Z, Loose(_)) ==
    \A i \in Live(o, Z) : AllAmounts(o.xacts[i]) /\ BalancedX(o.xacts[i], Loose(i))

-----------------------------------------------------------------------------
(* C02: k is the posting with the omitted amount *)
Completes(x, k) ==
    /\ AllAmounts(x)
    /\ LET others == SelectSeq([i \in 1..Len(x.posts) |-> i], LAMBDA i : i # k)
           v == [i \in 1..Len(others) |-> Value(x.posts[others[i]])]
           a == x.posts[k].amt[1]
       IN  /\ \A i \in 1..Len(v) : v[i].c = a.c \/ IsZero(SumOf(v, v[i].c))
           /\ \E i \in 1..Len(v) : v[i].c = a.c
           /\ DEq(a.q, Neg(SumOf(v, a.c)))
           /\ x.posts[k].cost = None

-----------------------------------------------------------------------------
(* C04 *)
TreePaths(o) == {o.accts[i].path : i \in 1..Len(o.accts)}

TreeWellFormed(o) ==
    LET P == TreePaths(o) IN
    /\ Cardinality(P) = Len(o.accts)
    /\ o.nodes = Len(o.accts)
    /\ << >> \in P
    /\ \A p \in P : p = << >> \/ SubSeq(p, 1, Len(p) - 1) \in P
    /\ \A i \in 1..Len(o.accts) :
          /\ o.accts[i].full = Join(o.accts[i].path)
          /\ o.accts[i].name = IF o.accts[i].path = << >> THEN << >> ELSE Last(o.accts[i].path)

-----------------------------------------------------------------------------
(* C05 *)
PostsTo(o, Z, path) ==
    FlattenSeq([x \in 1..Len(o.xacts) |->
        IF x \in Z THEN << >>
        ELSE SelectSeq([i \in 1..Len(o.xacts[x].posts) |-> <<x, i>>],
                       LAMBDA l : o.xacts[x].posts[l[2]].acct = path)])

AmtsAt(o, ls) == LET h == SelectSeq(ls, LAMBDA l : o.xacts[l[1]].posts[l[2]].amt # None)
                 IN  [i \in 1..Len(h) |-> o.xacts[h[i][1]].posts[h[i][2]].amt[1]]

OwnIsSum(o, Z) ==
    \A k \in 1..Len(o.accts) :
        LET ls == PostsTo(o, Z, o.accts[k].path)
            as == AmtsAt(o, ls)
        IN  /\ o.accts[k].links = ls
            /\ Fits(as) => BalEq(o.accts[k].own, BalSum(as))

(* C06 *)
TotalsRollUp(o) ==
    \A k \in 1..Len(o.accts) :
        LET p == o.accts[k].path
            below == SelectSeq(o.accts, LAMBDA a : IsPrefix(p, a.path))
            all   == FlattenSeq([i \in 1..Len(below) |-> below[i].own])
        IN  Fits(all) => BalEq(o.accts[k].total, BalSum(all))

-----------------------------------------------------------------------------
(* C07 *)
ACCOUNT == <<65, 99, 99, 111, 117, 110, 116, 32>>
HAS_BALANCE == <<32, 104, 97, 115, 32, 98, 97, 108, 97, 110, 99, 101, 32>>

(* the text is a concatenation of the amounts in some order *)
RECURSIVE Concats(_, _)
Concats(text, amts) ==
    IF amts = << >> THEN text = << >>
    ELSE \E i \in 1..Len(amts) :
           LET t == amts[i].t \o (IF amts[i].c = << >> THEN << >> ELSE <<SP>> \o amts[i].c)
           IN  IsPrefix(t, text) /\ Concats(From(text, Len(t) + 1), RemoveAt(amts, i))

ReportLine(line, a) ==
    LET pre == ACCOUNT \o Join(a.path) \o HAS_BALANCE
    IN  IsPrefix(pre, line) /\ Concats(From(line, Len(pre) + 1), a.total)

Ordered(seq, Lt(_, _)) == \A i \in 1..(Len(seq) - 1) : ~Lt(seq[i + 1], seq[i])

ReportOk(lines, o) ==
    LET ord == SortSeq([i \in 1..Len(o.accts) |-> i],
                       LAMBDA i, j : PathLt(o.accts[i].path, o.accts[j].path))
    IN  /\ Len(lines) = Len(o.accts)
        /\ \A i \in 1..Len(lines) : ReportLine(lines[i], o.accts[ord[i]])

(* C08 *)
AccountNames(o) == [i \in 1..Len(o.accts) |->
                      IF o.accts[i].path = << >> THEN << >> ELSE Last(o.accts[i].path)]
AccountsReportOk(lines, o) == Len(lines) = Len(o.accts) /\ Bag(lines) = Bag(AccountNames(o))

(* called as a function: in the order of the balance report *)
AccountsReportWalk(lines, o) ==
    LET ord == SortSeq([i \in 1..Len(o.accts) |-> i],
                       LAMBDA i, j : PathLt(o.accts[i].path, o.accts[j].path))
        names == AccountNames(o)
    IN  lines = [i \in 1..Len(ord) |-> names[ord[i]]]

-----------------------------------------------------------------------------
(* C09 *)
Known(t) == t = << >> \/ t[1] # 1
KnownAmt(a) == a = None \/ Known(a[1].c)
LinksValid(o, Z) ==
    /\ \A x \in 1..Len(o.xacts) : \A i \in 1..Len(o.xacts[x].posts) :
          LET p == o.xacts[x].posts[i] IN
          /\ p.xok
          /\ p.acct # << >> /\ Known(p.acct[1])
          /\ KnownAmt(p.amt) /\ KnownAmt(p.cost)
    /\ \A k \in 1..Len(o.accts) :
          LET a == o.accts[k] IN
          /\ \A i \in 1..Len(a.links) :
                LET l == a.links[i] IN
                /\ l[1] \in Live(o, Z)
                /\ l[2] \in 1..Len(o.xacts[l[1]].posts)
                /\ o.xacts[l[1]].posts[l[2]].acct = a.path
          /\ \A i, j \in 1..Len(a.links) : i # j => a.links[i] # a.links[j]
    /\ FoldLeft(LAMBDA n, a : n + Len(a.links), 0, o.accts)
         = FoldLeft(LAMBDA n, x : n + IF x \in Z THEN 0 ELSE Len(o.xacts[x].posts), 0,
                    [x \in 1..Len(o.xacts) |-> x])

-----------------------------------------------------------------------------
(* C10 *)
PoolWellFormed(o) ==
    /\ o.poolok
    /\ o.poollen = Len(o.pool)
    /\ Cardinality(ToSet(o.pool)) = Len(o.pool)
    /\ << >> \notin ToSet(o.pool)

UsedSyms(o) == UNION {UNION {OptSym(o.xacts[x].posts[i].amt) \cup OptSym(o.xacts[x].posts[i].cost) :
                               i \in 1..Len(o.xacts[x].posts)} : x \in 1..Len(o.xacts)}

-----------------------------------------------------------------------------
(* C15: prices are [s, d, t, q]; the result of a lookup is an option of [t, a] *)
MomentLt(a, b) == LET D == {i \in 1..6 : a[i] # b[i]}
                  IN  D # {} /\ LET k == MinOf(D) IN a[k] < b[k]

Edges(ps) == {<<ps[i].s, ps[i].d>> : i \in 1..Len(ps)}

Latest(ps, e) ==
    LET own == SelectSeq(ps, LAMBDA p : p.s = e[1] /\ p.d = e[2])
    IN  FoldLeft(LAMBDA a, p : IF MomentLt(a.t, p.t) THEN p ELSE a, own[1], own)

(* the commodities at distance k from the source, for k = 0, 1, ... until the target is met *)
RECURSIVE Layers(_, _, _, _)
Layers(E, target, layers, seen) ==
    LET top  == Last(layers)
        next == {e[2] : e \in {x \in E : x[1] \in top}} \ seen
    IN  IF target \in top THEN layers
        ELSE IF next = {} THEN << >>
        ELSE Layers(E, target, Append(layers, next), seen \cup next)

(* all [q, t] of the shortest chains from the target back to the source *)
RECURSIVE Chains(_, _, _, _)
Chains(ps, E, layers, node) ==
    LET k == Len(layers) IN
    IF k = 1 THEN {[q |-> DOne, t |-> <<9999, 12, 31, 23, 59, 59>>, n |-> 0]}
    ELSE UNION {LET l == Latest(ps, <<p, node>>)
                IN  {[q |-> Mul(c.q, l.q), t |-> IF MomentLt(l.t, c.t) THEN l.t ELSE c.t, n |-> c.n + 1] :
                       c \in Chains(ps, E, SubSeq(layers, 1, k - 1), p)} :
                p \in {x \in layers[k - 1] : <<x, node>> \in E}}

PriceOk(ps, src, dst, found) ==
    LET E == Edges(ps)
        L == Layers(E, dst, <<{src}>>, {src})
    IN  IF L = << >> THEN found = None
        ELSE /\ found # None
             /\ found[1].a.c = dst
             /\ \E c \in Chains(ps, E, L, dst) :
                   /\ found[1].t = c.t
                   /\ \/ DEq(found[1].a.q, c.q)
                      \/ ~Repr(c.q) /\ Roughly(found[1].a.q, c.q)

-----------------------------------------------------------------------------
(* C21: from observation p to observation o *)
PriceKeys(o) == {<<o.prices[i].s, o.prices[i].d, o.prices[i].t>> : i \in 1..Len(o.prices)}
AcctAt(o, path) == o.accts[SelectInSeq(o.accts, LAMBDA a : a.path = path)]

Appends(p, o, Z) ==
    /\ IsPrefix(p.xacts, o.xacts)
    /\ TreePaths(p) \subseteq TreePaths(o)
    /\ ToSet(p.pool) \subseteq ToSet(o.pool)
    /\ PriceKeys(p) \subseteq PriceKeys(o)
    /\ \A k \in 1..Len(p.accts) :
          LET a == p.accts[k]
              b == AcctAt(o, a.path)
              new == SelectSeq(PostsTo(o, Z, a.path), LAMBDA l : l[1] > Len(p.xacts))
              as == AmtsAt(o, new)
          IN  /\ IsPrefix(a.links, b.links)
              /\ b.full = a.full
              /\ Fits(as \o a.own) => BalEq(b.own, FoldLeft(BalAdd, a.own, as))

-----------------------------------------------------------------------------
(* What can be observed of a state of the specification. *)
ObsOf(s) ==
    LET w == Walk(s, << >>)
        K == DOMAIN s.prices
        ks == SetToSeq(K)
    IN  [xacts |-> [i \in 1..Len(s.xacts) |->
                      LET x == s.xacts[i] IN
                      [date |-> Some(x.date), aux |-> x.aux, payee |-> x.payee, note |-> x.note,
                       posts |-> [k \in 1..Len(x.posts) |->
                          LET p == x.posts[k] IN
                          [acct |-> p.acct, amt |-> p.amt, cost |-> p.cost, note |-> p.note, xok |-> TRUE]]]],
         accts |-> [i \in 1..Len(w) |->
                      [path |-> w[i], name |-> IF w[i] = << >> THEN << >> ELSE Last(w[i]),
                       full |-> Join(w[i]), links |-> Get(s.links, w[i], << >>),
                       own |-> Own(s, w[i]), total |-> Total(s, w[i])]],
         nodes |-> Len(w),
         pool |-> SetToSeq(s.pool), poollen |-> Cardinality(s.pool), poolok |-> TRUE,
         prices |-> [i \in 1..Len(ks) |-> [s |-> ks[i][1], d |-> ks[i][2], t |-> ks[i][3]]]]
=============================================================================
