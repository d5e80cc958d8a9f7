--------------------------------- MODULE MC --------------------------------
(* The bounded model: every sequence of lines from a pool, up to the bounds of *)
(* the pool, read by one or several reads into one journal.                    *)
(*                                                                             *)
(* It is used twice. The properties are checked on every reachable state of    *)
(* the specification itself (ModelOk, Appending), and every complete           *)
(* behaviour is printed (Emit), to be replayed in the implementation.          *)
EXTENDS Props, Json, IOUtils

Prop == IOEnv.PROP
Cfg == ndJsonDeserialize(IOEnv.POOL)[1]

Pool == Cfg.lines
N == Len(Pool)
TopTok == [i \in 1..N |-> ScanTopLine(Pool[i])]
XactTok == [i \in 1..N |-> ScanXactLine(Pool[i])]
Files == Cfg.files

VARIABLES st,      \* the journal
          hist,    \* the behaviour: positions in the pool, 0 for the end of a source
          plain,   \* the same journal read without lot annotations (C27)
          whole    \* the same journal read as one source (C19)
vars == <<st, hist, plain, whole>>

Reads == Len(SelectSeq(hist, LAMBDA i : i = 0))
Fresh == hist = << >> \/ Last(hist) = 0

NoLots(tok) == IF tok.k = "post" THEN [tok EXCEPT !.lot = None, !.lotd = None] ELSE tok

Apply(s, i, F(_)) ==
    IF s.status # "ok" THEN s
    ELSE IF s.mode = "top" THEN StepTop(s, TopTok[i], Files)
    ELSE StepXact(s, F(XactTok[i]), Pool[i], Files)

Id(tok) == tok

(* which lines are of interest: without Cfg.wild only those with a meaning in the mode *)
Enabled(i) ==
    IF Cfg.wild THEN TRUE
    ELSE IF st.mode = "top" THEN TopTok[i].k \in {"header", "price", "include", "comment"} /\ TopTok[i].cls <= MAY
    ELSE /\ XactTok[i].k \in {"post", "note", "end"}
         /\ XactTok[i].k = "post" => Len(st.cur.posts) < Cfg.posts

Init == st = Empty /\ hist = << >> /\ plain = Empty /\ whole = Empty

Line(i) == /\ st.status = "ok" /\ Enabled(i) /\ Reads < Cfg.reads
           /\ Len(st.xacts) < Cfg.xacts
           /\ st' = Apply(st, i, Id)
           /\ hist' = Append(hist, i)
           /\ plain' = IF Prop = "C27" THEN Apply(plain, i, NoLots) ELSE plain
           /\ whole' = IF Prop = "C19" THEN Apply(whole, i, Id) ELSE whole

(* the end of a source; a rejected transaction may stay behind *)
End == /\ ~Fresh /\ Reads < Cfg.reads
       /\ LET s == EndSource(st)
          IN  CASE s.status = "ok" -> st' = s
                [] s.status = "un" -> FALSE
                [] OTHER -> \/ st' = Recover(s)
                            \/ st' = [Recover(s) EXCEPT !.xacts = Append(@, Zombie)]
       /\ hist' = Append(hist, 0)
       /\ plain' = IF Prop = "C27" THEN (LET p == EndSource(plain) IN IF p.status = "rej" THEN Recover(p) ELSE p)
                   ELSE plain
       /\ whole' = IF Prop = "C19" THEN (IF whole.mode = "xact" THEN StepXact(whole, Tok("end", OK), << >>, Files) ELSE whole)
                   ELSE whole

Next == (\E i \in 1..N : Line(i)) \/ End

Spec == Init /\ [][Next]_vars

Bound == Len(hist) < Cfg.len

-----------------------------------------------------------------------------
(* Complete behaviours; those that the specification leaves open have no end. *)
Emit == (hist # << >> /\ Last(hist) = 0 /\ (Reads = Cfg.reads \/ st.dirty \/ ~Cfg.last))
        => PrintT(<<"B", hist>>)

-----------------------------------------------------------------------------
(* The properties of the specification *)

Zs == {i \in 1..Len(st.xacts) : st.xacts[i].z}
RealX == {st.xacts[i] : i \in (1..Len(st.xacts)) \ Zs}

(* the transaction balances; an implied cost amt * num / den is taken times den *)
ExactlyBalanced(x) ==
    LET n == Len(x.posts)
        imps == {i \in 1..n : x.posts[i].imp # None}
        den == IF imps = {} THEN DOne ELSE x.posts[CHOOSE i \in imps : TRUE].imp[1].den
        val(i) == LET p == x.posts[i] IN
                  IF p.imp # None THEN [c |-> p.cost[1].c, q |-> Mul(p.amt[1].q, p.imp[1].num)]
                  ELSE LET v == Value(p) IN [c |-> v.c, q |-> Mul(v.q, den)]
        vs == [i \in 1..n |-> val(i)]
    IN  \A c \in {vs[i].c : i \in 1..n} : IsZero(SumOf(vs, c))

ElidedOk(x) ==
    LET E == {i \in 1..Len(x.posts) : x.posts[i].elided}
    IN  /\ Cardinality(E) <= 1
        /\ \A k \in E : Completes(x, k)

(* C12: who gets an implied cost *)
ImpliedOk(x) ==
    LET n == Len(x.posts)
        I == {i \in 1..n : x.posts[i].imp # None}
    IN  I # {} =>
        /\ \A i \in 1..n : (i \in I) <=> (x.posts[i].amt[1].c = x.posts[1].amt[1].c)
        /\ \A i \in 1..n : x.posts[i].cost # None => i \in I
        /\ Cardinality({x.posts[i].amt[1].c : i \in 1..n}) = 2

(* C13, C14: the prices are those of the costs, and of the directives *)
CostPrices == {<<p.amt[1].c, p.cost[1].c, x.date \o Midnight>> :
                 <<x, p>> \in UNION {{<<x, x.posts[i]>> : i \in {j \in 1..Len(x.posts) : x.posts[j].cost # None}} : x \in RealX}}
ZeroCost(p) == IF p.imp # None THEN IsZero(p.amt[1].q) ELSE IsZero(p.cost[1].q)
Recorded == \A x \in RealX : \A i \in 1..Len(x.posts) :
               LET p == x.posts[i] IN
               (p.cost # None /\ ~ZeroCost(p)) => <<p.amt[1].c, p.cost[1].c, x.date \o Midnight>> \in DOMAIN st.prices
Directives == {i \in 1..Len(hist) : hist[i] # 0 /\ TopTok[hist[i]].k = "price"}
DirKeys == {<<TopTok[hist[i]].s, TopTok[hist[i]].d, TopTok[hist[i]].t>> :
              i \in {j \in Directives : TopTok[hist[j]].cls <= MAY}}
Explained == DOMAIN st.prices \subseteq CostPrices \cup DirKeys
Directed == (st.mode = "top" /\ ~st.dirty) => \A k \in DirKeys : k \in DOMAIN st.prices

(* C15: breadth first search, as an algorithm *)
PriceSeq == LET ks == SetToSeq({k \in DOMAIN st.prices : st.prices[k].src = "P"})
            IN  [i \in 1..Len(ks) |-> [s |-> ks[i][1], d |-> ks[i][2], t |-> ks[i][3], q |-> st.prices[ks[i]].num]]

RECURSIVE Bfs(_, _, _, _)
(* queue of [node, q, t, n]; seen: set of nodes *)
Bfs(ps, queue, seen, target) ==
    IF queue = << >> THEN None
    ELSE LET h == queue[1] IN
    IF h.node = target /\ h.n > 0 THEN Some([t |-> h.t, a |-> [q |-> h.q, c |-> target]])
    ELSE LET out == SetToSeq({e[2] : e \in {x \in Edges(ps) : x[1] = h.node}} \ seen)
             ext(d) == LET l == Latest(ps, <<h.node, d>>)
                       IN  [node |-> d, q |-> Mul(h.q, l.q), n |-> h.n + 1,
                            t |-> IF h.n = 0 \/ MomentLt(l.t, h.t) THEN l.t ELSE h.t]
         IN  Bfs(ps, Tail(queue) \o [i \in 1..Len(out) |-> ext(out[i])], seen \cup ToSet(out), target)

Lookup(ps, a, b) == Bfs(ps, <<[node |-> a, q |-> DOne, n |-> 0, t |-> <<9999, 12, 31, 23, 59, 59>>]>>, {a}, b)

LookupsOk == LET ps == PriceSeq IN
             \A a, b \in st.pool : a # b => PriceOk(ps, a, b, Lookup(ps, a, b))

(* C17: the notes of the last transaction, from the text *)
(* the lines of the transaction that is being read *)
CurLines == LET hs == {i \in 1..Len(hist) : hist[i] # 0 /\ TopTok[hist[i]].k = "header"}
            IN  IF hs = {} THEN << >>
                ELSE SubSeq(hist, (CHOOSE i \in hs : \A j \in hs : j <= i) + 1, Len(hist))
NotesOf(lines) == SelectSeq([i \in 1..Len(lines) |-> XactTok[lines[i]]],
                            LAMBDA t : t.k = "note" /\ t.cls = OK)
RECURSIVE JoinNotes(_, _)
JoinNotes(first, ns) == IF ns = << >> THEN first
                        ELSE JoinNotes(IF ns[1].note = << >> THEN first ELSE AddNote(first, ns[1].note), Tail(ns))
NotesOk ==
    (st.mode = "xact" /\ st.status = "ok") =>
    LET ls == CurLines
        P == SelectSeq([i \in 1..Len(ls) |-> i], LAMBDA i : XactTok[ls[i]].k = "post")
        seg(k) == IF k = 0 THEN SubSeq(ls, 1, IF P = << >> THEN Len(ls) ELSE P[1] - 1)
                  ELSE SubSeq(ls, P[k], IF k = Len(P) THEN Len(ls) ELSE P[k + 1] - 1)
        h == TopTok[hist[Len(hist) - Len(ls)]]
    IN  /\ Len(P) = Len(st.cur.posts)
        /\ st.cur.note = JoinNotes(h.note, NotesOf(seg(0)))
        /\ \A k \in 1..Len(P) : st.cur.posts[k].note = JoinNotes(None, NotesOf(seg(k)))

(* C03, C16: what is recorded is what the lines say, in order *)
PostLines == LET idx == SelectSeq([i \in 1..Len(hist) |-> i],
                                  LAMBDA i : hist[i] # 0 /\ XactTok[hist[i]].k = "post")
             IN  [i \in 1..Len(idx) |-> XactTok[hist[idx[i]]]]
AllPostsOf == FlattenSeq([i \in 1..Len(st.xacts) |-> st.xacts[i].posts]) \o st.cur.posts
AsWritten == (st.status = "ok" /\ ~st.dirty) =>
    LET A == AllPostsOf
        W == PostLines
    IN  /\ Len(A) = Len(W)
        /\ \A i \in 1..Len(A) : /\ A[i].acct = W[i].acct
                                /\ W[i].amt # None => A[i].amt = W[i].amt
Heads == LET idx == SelectSeq([i \in 1..Len(hist) |-> i],
                              LAMBDA i : hist[i] # 0 /\ TopTok[hist[i]].k = "header")
         IN  [i \in 1..Len(idx) |-> TopTok[hist[idx[i]]]]
HeadersOk == (st.status = "ok" /\ ~st.dirty) =>
    LET X == st.xacts \o (IF st.mode = "xact" THEN <<st.cur>> ELSE << >>)
        H == Heads
    IN  /\ Len(X) = Len(H)
        /\ \A i \in 1..Len(X) : /\ X[i].date = H[i].date /\ X[i].aux = H[i].aux
                                /\ X[i].payee = IF H[i].payee = << >> THEN UNKNOWN_PAYEE ELSE H[i].payee
                                /\ X[i].tn \/ X[i].note = H[i].note

(* C11 *)
CostsOk == st.status = "ok" => \A i \in 1..Len(AllPostsOf) :
    LET p == AllPostsOf[i] IN
    /\ p.cost # None => p.amt # None
    /\ (st.dirty \/ p.imp # None) \/ LET w == PostLines[i] IN
          /\ (w.cost = None) = (p.cost = None)
          /\ w.cost # None => /\ p.cost[1].c = w.cost[1].c
                              /\ DEq(p.cost[1].q, IF w.per THEN Mul(w.cost[1].q, w.amt[1].q) ELSE w.cost[1].q)

(* C18: layout, for every line of the pool and in every mode *)
Pad(l, k) == l \o [i \in 1..k |-> SP]
Comment == <<59, 32, 120>>
LayoutOk ==
    /\ st.mode = "top" /\ st.status = "ok" =>
         /\ StepLine(st, << >>, Files) = st
         /\ StepLine(st, Pad(<< >>, 3), Files) = st
         /\ StepLine(st, <<CR>>, Files) = st
         /\ StepLine(st, Comment, Files) = st
    /\ st.mode = "xact" /\ st.status = "ok" =>
         /\ StepLine(st, << >>, Files) = EndSource(st)
         /\ StepLine(st, Pad(<< >>, 2), Files) = EndSource(st)
         /\ StepLine(st, <<CR>>, Files) = EndSource(st)
    /\ hist # << >> \/ \A i \in 1..N :
         LET l == Pool[i] IN
         l = << >> \/
         /\ ScanTopLine(l \o <<CR>>) = ScanTopLine(l) /\ ScanTopLine(Pad(l, 3)) = ScanTopLine(l)
         /\ (l[1] = SP => /\ ScanXactLine(l \o <<CR>>) = ScanXactLine(l)
                          /\ ScanXactLine(Pad(l, 3)) = ScanXactLine(l)
                          /\ ScanXactLine(<<SP, SP>> \o l) = ScanXactLine(l)
                          /\ LET k == Find2(TrimStart(l), SP, SP)
                             IN  k = 0 \/ LET t == TrimStart(l) IN
                                 ScanXactLine(<<SP>> \o SubSeq(t, 1, k) \o <<SP, SP>> \o From(t, k + 1)) = ScanXactLine(l))

(* C19: pieces and includes *)
Journal(s) == [x |-> s.xacts, a |-> s.accts, l |-> s.links, p |-> s.pool, r |-> s.prices]
PiecesOk == (Fresh /\ st.status = "ok" /\ whole.status = "ok" /\ ~st.dirty) => Journal(st) = Journal(whole)
IncludesOk == hist # << >> \/ \A i \in 1..Len(Files) :
    LET a == ReadText(Empty, INCLUDE \o <<SP>> \o Files[i].name, Files)
        b == ReadText(Empty, Files[i].text, Files)
    IN  a.status = b.status /\ (a.status = "ok" => Journal(a) = Journal(b))

(* C20: what is malformed is never part of an accepted source *)
NoMalformed == st.status = "ok" /\ ~st.dirty =>
    \A i \in 1..Len(hist) : hist[i] # 0 =>
        \/ TopTok[hist[i]].cls <= MAY \/ XactTok[hist[i]].cls <= MAY

(* C22 *)
FindOk == \A p \in st.accts : /\ Find(st, p) = Some(p)
                              /\ Register(st, p) = st
                              /\ Find(st, Append(p, <<0>>)) = None

(* C27 *)
Strip(x) == [x EXCEPT !.posts = [i \in 1..Len(x.posts) |-> [x.posts[i] EXCEPT !.lot = None]]]
LotsInert == st.status = plain.status /\
    (st.status = "ok" => /\ LET X == SelectSeq(st.xacts, LAMBDA x : ~x.z)
                            IN  [i \in 1..Len(X) |-> Strip(X[i])] = plain.xacts
                         /\ st.accts = plain.accts /\ st.links = plain.links /\ st.prices = plain.prices
                         /\ plain.pool \subseteq st.pool)

(* C28, C24: for the quantities and symbols of the pool *)
Quantities == Cfg.quantities
Symbols == Cfg.symbols
NotationsOk == hist # << >> \/
    \A i \in 1..Len(Quantities), j \in 1..Len(Symbols) :
        LET q == Quantities[i]
            s == Symbols[j]
            forms == {q \o s, q \o <<SP>> \o s, s \o q, s \o <<SP>> \o q}
            amts == {ScanAmt(f) : f \in forms}
        IN  /\ Cardinality({[cls |-> a.cls, q |-> a.q, c |-> a.c, rest |-> a.rest] : a \in amts}) = 1
            /\ \A a \in amts : a.cls = ScanNum(q).cls /\ a.q = ScanNum(q).v
ArithOk == hist # << >> \/
    \A i, j, k \in 1..Len(Quantities) :
        LET x == ScanNum(Quantities[i]).v
            y == ScanNum(Quantities[j]).v
            z == ScanNum(Quantities[k]).v
        IN  /\ DEq(Add(x, y), Add(y, x)) /\ DEq(Add(Add(x, y), z), Add(x, Add(y, z)))
            /\ DEq(Mul(x, y), Mul(y, x)) /\ DEq(Mul(x, Add(y, z)), Add(Mul(x, y), Mul(x, z)))
            /\ IsZero(Add(x, Neg(x))) /\ DEq(Neg(Neg(x)), x) /\ DEq(Sub(Add(x, y), y), x)
            /\ DEq(Abs(x), IF Sign(x) < 0 THEN Neg(x) ELSE x)
            /\ DCmp(x, y) = -DCmp(y, x)

(* C29: a balance does not depend on the order and the grouping of its terms *)
BalancesOk == hist # << >> \/
    LET A == {[q |-> ScanNum(Quantities[i]).v, c |-> Symbols[j]] : i \in 1..Len(Quantities), j \in 1..Len(Symbols)}
        neg(a) == [a EXCEPT !.q = Neg(@)]
    IN  \A a, b, c \in A :
           /\ BalEq(BalSum(<<a, b, c>>), BalSum(<<c, a, b>>)) /\ BalEq(BalSum(<<a, b, c>>), BalSum(<<b, a, c>>))
           /\ BalEq(BalAll(<<BalSum(<<a>>), BalSum(<<b, c>>)>>), BalSum(<<a, b, c>>))
           /\ \A x \in ToSet(BalSum(<<a, b, neg(a), neg(b)>>)) : IsZero(x.q)
           /\ \A x \in ToSet(BalSum(<<a, b, c>>)) : DEq(x.q, SumOf(<<a, b, c>>, x.c))

(* C26: an exchange at the cost of each posting gives the price of that posting *)
UnitPricesOk == st.status = "ok" => \A k \in DOMAIN st.prices :
    LET p == st.prices[k] IN Sign(p.num) >= 0 /\ Sign(p.den) > 0 /\ k[1] # k[2]

Obs == ObsOf(st)

ModelOk ==
    CASE Prop = "C01" -> \A x \in RealX : ExactlyBalanced(x)
      [] Prop = "C02" -> \A x \in RealX : AllAmounts(x) /\ ElidedOk(x)
      [] Prop = "C03" -> AsWritten
      [] Prop = "C04" -> TreeWellFormed(Obs) /\ {AllPostsOf[i].acct : i \in 1..Len(AllPostsOf)} \subseteq st.accts
      [] Prop = "C05" -> OwnIsSum(Obs, Zs)
      [] Prop = "C06" -> TotalsRollUp(Obs)
      [] Prop = "C07" -> LET w == Walk(st, << >>) IN
                         Ordered(w, PathLt) /\ ToSet(w) = st.accts /\ Len(w) = Cardinality(st.accts)
      [] Prop = "C08" -> Len(Walk(st, << >>)) = Cardinality(st.accts)
      [] Prop = "C09" -> LinksValid(Obs, Zs)
      [] Prop = "C10" -> PoolWellFormed(Obs) /\ UsedSyms(Obs) \subseteq st.pool
      [] Prop = "C11" -> CostsOk
      [] Prop = "C12" -> \A x \in RealX : ImpliedOk(x) /\ ExactlyBalanced(x)
      [] Prop = "C13" -> Recorded /\ UnitPricesOk
      [] Prop = "C14" -> Explained /\ Directed
      [] Prop = "C15" -> LookupsOk
      [] Prop = "C16" -> HeadersOk
      [] Prop = "C17" -> NotesOk
      [] Prop = "C18" -> LayoutOk
      [] Prop = "C19" -> PiecesOk /\ IncludesOk
      [] Prop = "C20" -> NoMalformed
      [] Prop = "C22" -> FindOk
      [] Prop = "C24" -> ArithOk
      [] Prop = "C26" -> UnitPricesOk
      [] Prop = "C27" -> LotsInert
      [] Prop = "C28" -> NotationsOk
      [] Prop = "C29" -> BalancesOk
      [] OTHER -> TRUE

(* C21, as an action: the journal only grows *)
Grows == Prop \in {"C21", "C25"} => Appends(ObsOf(st), ObsOf(st'), {i \in 1..Len(st'.xacts) : st'.xacts[i].z})
Appending == [][Grows]_vars

(* violated when the model never gets there: a check of the checks *)
Reached == Len(st.xacts) >= 1
=============================================================================
