-------------------------------- MODULE Trace ------------------------------
(* Conformance of recorded executions of the implementation.                  *)
(*                                                                            *)
(* A trace is a sequence of operations on journals (slots), recorded at the   *)
(* return of each public call with its arguments, its result and what can be  *)
(* observed of the journal afterwards. Each step consumes one operation: the  *)
(* specification makes its transition, and Fails compares the result and the  *)
(* observation with it and evaluates the formulas of the property Prop.       *)
(* The specification is deterministic, so a trace has exactly one behaviour.  *)
EXTENDS Props, Json, IOUtils

Prop == IOEnv.PROP
Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l, js, bad
vars == <<tid, l, js, bad>>

(* One journal: the state of the specification, the last observation, whether   *)
(* the specification still determines the journal (live), the positions of      *)
(* rejected transactions (Z) and whether they are known, and the files read.    *)
Fresh == [st |-> Empty, o |-> None, live |-> TRUE, known |-> TRUE, Z |-> {}, fs |-> << >>, pure |-> TRUE]

Slot(f, k) == Get(f, k, Fresh)

-----------------------------------------------------------------------------
(* Transitions *)

SpecRead(j, op) ==
    LET s0 == [j.st EXCEPT !.may = FALSE]
    IN  IF op.fault
        THEN LET s == ReadLines(s0, Lines(op.text), op.files)
             IN  IF s.status = "ok" THEN Reject(s, "fault") ELSE s
        ELSE ReadText(s0, op.text, op.files)

Expected(s) == CASE s.status = "un" -> "any"
                 [] s.status = "rej" -> "panic"
                 [] s.may -> "either"
                 [] OTHER -> "ok"

ResultOk(e, res) == CASE e = "ok" -> res = "ok"
                      [] e = "panic" -> res = "panic"
                      [] OTHER -> res \in {"ok", "panic"}

Dead(j, op) == [j EXCEPT !.live = FALSE, !.known = FALSE, !.o = op.o]

AfterRead(j, s, op) ==
    LET e == Expected(s)
        extra == Len(op.o[1].xacts) - Len(s.xacts)
        fs == [j EXCEPT !.fs = Append(@, op.fname), !.o = op.o]
    IN  IF ~j.live
        THEN IF op.res = "ok" /\ j.known THEN fs ELSE Dead(fs, op)
        ELSE IF ~ResultOk(e, op.res) THEN Dead(fs, op)
        ELSE CASE e = "panic" ->
                    IF s.may \/ op.o = None \/ extra \notin {0, 1} THEN Dead(fs, op)
                    ELSE LET r == Recover(s)
                         IN  IF extra = 0 THEN [fs EXCEPT !.st = r]
                             ELSE [fs EXCEPT !.st = [r EXCEPT !.xacts = Append(@, Zombie)],
                                             !.Z = @ \cup {Len(s.xacts) + 1}]
               [] op.res = "panic" -> Dead(fs, op)
               [] e = "any" -> [fs EXCEPT !.live = FALSE]
               [] OTHER -> [fs EXCEPT !.st = s]

PathOf(name) == Split(name, 58)
NameOk(name) == AcctCls(name, PathOf(name)) = OK

(* the signed terms of a balance, in order *)
Terms(ts) == FlattenSeq([i \in 1..Len(ts) |->
                [k \in 1..Len(ts[i].as) |->
                    IF ts[i].f = "sub_assign" THEN [ts[i].as[k] EXCEPT !.q = Neg(@)] ELSE ts[i].as[k]]])

(* a price given to the pool, as a directive or as values *)
AddedPrice(op) ==
    IF op.f = "line" THEN ScanPrice(op.text)
    ELSE [k |-> "price", cls |-> OK, t |-> op.moment, s |-> op.s, q |-> op.a.q, d |-> op.a.c]

(* the specification of the other operations: only these change a journal *)
AfterOther(j, op) ==
    LET j1 == IF op.o = None THEN j ELSE [j EXCEPT !.o = op.o] IN
    IF ~j.live THEN j1 ELSE
    CASE op.op = "reg" -> IF NameOk(op.name) /\ op.res = "ok"
                          THEN [j1 EXCEPT !.st = Register(@, PathOf(op.name)), !.pure = FALSE]
                          ELSE [j1 EXCEPT !.live = FALSE]
      [] op.op \in {"exch", "arith"} ->
           [j1 EXCEPT !.st.pool = @ \cup Syms(op.a.c) \cup Syms(op.b.c), !.pure = FALSE]
      [] op.op = "pamt" ->
           LET t == TrimStart(op.text)
               a == ScanAmt(t)
           IN  IF t = << >> \/ a.cls >= REJ \/ op.res # "ok"
               THEN [j1 EXCEPT !.st.dirty = TRUE, !.pure = FALSE]
               ELSE [j1 EXCEPT !.st.pool = @ \cup Syms(a.c), !.pure = FALSE]
      [] op.op = "bal" ->
           [j1 EXCEPT !.st.pool = @ \cup UNION {Syms(x.c) : x \in ToSet(Terms(op.terms))}, !.pure = FALSE]
      [] op.op = "addprice" ->
           LET tok == AddedPrice(op)
           IN  IF tok.cls = OK /\ op.res = "ok" THEN [j1 EXCEPT !.st = Directive(@, tok), !.pure = FALSE]
               ELSE IF tok.cls \in {MAY, UN} /\ op.res = "ok" THEN [j1 EXCEPT !.live = FALSE]
               ELSE [j1 EXCEPT !.st.dirty = TRUE, !.pure = FALSE]
      [] OTHER -> j1

-----------------------------------------------------------------------------
(* Comparison with the specification. X: specification, O: observation *)

SameShape(X, O) == /\ Len(X) = Len(O)
                   /\ \A i \in 1..Len(X) : X[i].z \/ Len(X[i].posts) = Len(O[i].posts)

(* for all postings of accepted transactions *)
AllPosts(X, O, P(_, _)) ==
    \A i \in 1..Len(X) : X[i].z \/
        \A k \in 1..Len(X[i].posts) : P(X[i].posts[k], O[i].posts[k])
AllXacts(X, O, P(_, _)) == \A i \in 1..Len(X) : X[i].z \/ P(X[i], O[i])

Exactly(a, b) == a.c = b.c /\ DEq(a.q, b.q) /\ a.q.s = b.q.s
SameAmt(a, b) == a.c = b.c /\ DEq(a.q, b.q)

PostAsWritten(p, q) == /\ q.acct = p.acct
                       /\ p.elided \/ (q.amt # None /\ Exactly(p.amt[1], q.amt[1]))

CostAsWritten(p, q) ==
    IF p.imp # None THEN TRUE
    ELSE IF p.cost = None THEN q.cost = None
    ELSE /\ q.cost # None /\ SameAmt(p.cost[1], q.cost[1])
         /\ q.amt # None /\ SameAmt(p.amt[1], q.amt[1])

ImpliedCost(p, q) ==
    IF p.imp = None THEN p.cost # None \/ q.cost = None
    ELSE /\ q.amt # None /\ Exactly(p.amt[1], q.amt[1])
         /\ q.cost # None
         /\ q.cost[1].c = p.cost[1].c
         /\ IsZero(p.amt[1].q) \/ Sign(q.cost[1].q) \in {0, Sign(p.amt[1].q)}
         /\ Ratio(Abs(q.cost[1].q), Abs(p.amt[1].q), p.imp[1].num, p.imp[1].den)

HeaderAsWritten(x, y) == /\ y.date = Some(x.date) /\ y.aux = x.aux /\ y.payee = x.payee
                         /\ x.tn \/ y.note = x.note

NotesAsWritten(x, y) == /\ ~x.tn \/ y.note = x.note
                        /\ x.tn \/ x.note # None \/ y.note = None
                        /\ \A k \in 1..Len(x.posts) :
                              x.posts[k].inote \/ x.posts[k].note = y.posts[k].note

(* omitted amounts by value, costs *)
PostConforms(p, q) ==
    /\ PostAsWritten(p, q)
    /\ q.amt # None /\ SameAmt(p.amt[1], q.amt[1])
    /\ CostAsWritten(p, q) /\ ImpliedCost(p, q)

XactConforms(x, y) == /\ HeaderAsWritten(x, y) /\ NotesAsWritten(x, y)
                      /\ \A k \in 1..Len(x.posts) : PostConforms(x.posts[k], y.posts[k])

(* prices of the specification against the recorded ones, for one kind of source *)
ObsPrices(o) == [k \in PriceKeys(o) |->
                    o.prices[SelectInSeq(o.prices, LAMBDA p : <<p.s, p.d, p.t>> = k)].q]

PricesFail(s, o, src) ==
    LET P == ObsPrices(o) IN
    If(\A k \in DOMAIN s.prices :
          s.prices[k].src = src =>
             /\ k \in DOMAIN P
             /\ s.dirty \/ IF src = "P" THEN DEq(P[k], s.prices[k].num)
                           ELSE Sign(P[k]) >= 0 /\ Ratio(Mul(P[k], s.prices[k].u), s.prices[k].u, s.prices[k].num, s.prices[k].den),
       "recorded price")
    \cup If(s.dirty \/ DOMAIN P \subseteq DOMAIN s.prices, "unexplained price")
    \cup If(Cardinality(PriceKeys(o)) = Len(o.prices), "duplicate price")

SetMatches(s, spec, obs) == IF s.dirty THEN spec \subseteq obs ELSE spec = obs

ConformFail(j, o) ==
    LET s == j.st
        X == s.xacts
        O == o.xacts
    IN  IF ~SameShape(X, O) THEN {"number of transactions or postings"}
        ELSE If(AllXacts(X, O, XactConforms), "transaction")
             \cup If(SetMatches(s, s.accts, TreePaths(o)), "accounts")
             \cup If(SetMatches(s, s.pool, ToSet(o.pool)), "commodities")
             \cup PricesFail(s, o, "P") \cup PricesFail(s, o, "cost")

-----------------------------------------------------------------------------
(* Commands: which files and which report *)

DASH == 45
FILE == 102
RECURSIVE ParseArgs(_, _)
ParseArgs(args, r) ==
    IF args = << >> THEN r
    ELSE LET a == args[1] IN
    IF a = << >> THEN [r EXCEPT !.cls = UN]
    ELSE IF a[1] # DASH THEN ParseArgs(Tail(args), [r EXCEPT !.cmds = Append(@, a)])
    ELSE IF a = <<DASH, DASH>> THEN [r EXCEPT !.cls = UN]
    ELSE IF Len(a) = 1 THEN [r EXCEPT !.cls = Maxi(@, REJ)]
    ELSE IF a[2] # FILE THEN [r EXCEPT !.cls = Maxi(@, REJ)]    \* no other option, short or long, is supported
    ELSE IF \E i \in 2..Len(a) : a[i] # FILE THEN [r EXCEPT !.cls = UN]
    ELSE LET n == Len(a) - 1      \* -ff A B: the values come after the options
         IN  IF Len(args) <= n THEN [r EXCEPT !.cls = Maxi(@, REJ)]
             ELSE ParseArgs(SubSeq(args, n + 2, Len(args)), [r EXCEPT !.fs = @ \o SubSeq(args, 2, n + 1)])

VERB_B == <<98>>
VERB_BAL == <<98, 97, 108>>
VERB_BALANCE == <<98, 97, 108, 97, 110, 99, 101>>
VERB_ACCOUNTS == <<97, 99, 99, 111, 117, 110, 116, 115>>

(* a verb that starts with an a may be an abbreviation; arguments of a command may be ignored, *)
(* select lines of its report, or be rejected                                                 *)
RunSpec(args) ==
    LET r == ParseArgs(args, [cls |-> OK, cmds |-> << >>, fs |-> << >>])
    IN  IF r.cls # OK THEN r
        ELSE IF r.cmds = << >> THEN [r EXCEPT !.cls = REJ]
        ELSE IF r.cmds[1] \in {VERB_B, VERB_BAL, VERB_BALANCE, VERB_ACCOUNTS}
             THEN (IF Len(r.cmds) = 1 THEN r ELSE [r EXCEPT !.cls = MAY])
        ELSE [r EXCEPT !.cls = REJ]

RECURSIVE ReadFiles(_, _, _)
ReadFiles(s, names, files) ==
    IF names = << >> \/ s.status # "ok" THEN s
    ELSE LET i == SelectInSeq(files, LAMBDA f : f.name = names[1])
         IN  IF i = 0 THEN Reject(s, "missing")
             ELSE IF files[i].bad THEN Reject(s, "unreadable")
             ELSE ReadFiles(ReadText(s, files[i].text, files), Tail(names), files)

RunExpected(op) ==
    LET r == RunSpec(op.args)
    IN  IF r.cls = REJ THEN "panic"
        ELSE IF r.cls = UN THEN "any"
        ELSE LET e == Expected(ReadFiles(Empty, r.fs, op.files))
             IN  IF r.cls = MAY /\ e = "ok" THEN "any" ELSE e

(* j is a journal into which exactly the files were read *)
RunOutputFail(j, op) ==
    LET r == RunSpec(op.args)
        o == j.o[1]
    IN  IF op.res # "ok" \/ r.cls \notin {OK, MAY} \/ j.o = None \/ ~j.live \/ ~j.pure THEN {}
        ELSE IF j.fs # [i \in 1..Len(r.fs) |-> Some(r.fs[i])] THEN {}
        ELSE IF r.cls = MAY
             THEN If(ToSet(op.lines) \subseteq (IF r.cmds[1] = VERB_ACCOUNTS THEN ToSet(AccountNames(o)) ELSE ToSet(o.report)),
                     "lines of the command's report")
        ELSE IF r.cmds[1] = VERB_ACCOUNTS
             THEN If(AccountsReportOk(op.lines, o), "accounts report of the command")
                  \cup If(Ordered(op.lines, TextLt), "order of the accounts report")
             ELSE If(op.lines = o.report, "balance report of the command")
                  \cup If(ReportOk(op.lines, o), "content of the balance report")

-----------------------------------------------------------------------------
(* Amounts *)

ArithFail(op) ==
    LET a == op.a
        b == op.b
        r == op.amt
        lc == IF a.c = << >> THEN b.c ELSE a.c
        exact(v, c) == IF ~Repr(v) THEN {} ELSE
                       If(op.res = "ok" /\ DEq(r.q, v), op.f \o ": quantity")
                       \cup If(op.res = "ok" /\ r.c = c, op.f \o ": commodity")
        sum(v) == IF a.c # b.c THEN If(op.res # "ok", op.f \o ": different commodities accepted")
                  ELSE exact(v, a.c)
        aligned(v) == \* the implementation may round what does not fit
            LET s == Maxi(a.q.s, b.q.s) IN Repr(Rescale(a.q, s)) /\ Repr(Rescale(b.q, s)) /\ Repr(v)
        quot(c) == IF IsZero(b.q) \/ ~Divides(a.q, b.q) THEN {}
                   ELSE If(op.res = "ok" /\ Quotient(r.q, a.q, b.q, 20), op.f \o ": quotient")
                        \cup If(op.res = "ok" /\ r.c = c, op.f \o ": commodity")
    IN  (CASE op.f \in {"add", "add_assign", "add_method"} ->
                IF a.c = b.c /\ ~aligned(Add(a.q, b.q)) THEN {} ELSE sum(Add(a.q, b.q))
           [] op.f = "sub_assign" -> IF a.c = b.c /\ ~aligned(Sub(a.q, b.q)) THEN {} ELSE sum(Sub(a.q, b.q))
           [] op.f \in {"qadd", "qadd2"} -> IF aligned(Add(a.q, b.q)) THEN exact(Add(a.q, b.q), << >>) ELSE {}
           [] op.f = "qsub" -> IF aligned(Sub(a.q, b.q)) THEN exact(Sub(a.q, b.q), << >>) ELSE {}
           [] op.f \in {"mul", "mul_assign"} -> exact(Mul(a.q, b.q), lc)
           [] op.f \in {"qmul", "qmul_assign"} -> exact(Mul(a.q, b.q), << >>)
           [] op.f = "div" -> quot(lc)
           [] op.f = "qdiv" -> quot(<< >>)
           [] op.f = "abs" -> exact(Abs(a.q), a.c)
           [] op.f \in {"inverse", "invert"} -> exact(Neg(a.q), a.c)
           [] op.f \in {"inverse2", "copy"} -> exact(a.q, a.c)
           [] op.f = "remove" -> exact(a.q, << >>)
           [] op.f = "null" -> exact(DZero, << >>))
        \cup (IF op.res # "ok" THEN {} ELSE
              If(op.same, "operands changed")
              \cup If(op.zero = IsZero(r.q), "is_zero")
              \cup If(op.null = (IsZero(r.q) /\ r.c = << >>), "is_null")
              \cup If(op.eq = (a.c = b.c /\ DEq(a.q, b.q)), "equality")
              \cup If(op.lt = (DCmp(a.q, b.q) < 0), "order")
              \cup If(IsZero(a.q) \/ op.positive = (Sign(a.q) > 0), "sign"))

(* conversions of quantities *)
ConvFail(op) ==
    LET v == ScanNum(op.text) IN
    (IF op.res # "ok" THEN {} ELSE
     If(DEq(op.from, op.n) /\ DEq(op.amount, op.n) /\ op.plain, "quantity of an integer")
     \cup If(DEq(op.back, op.n), "integer of a quantity"))
    \cup (CASE v.cls = UN -> {}
            [] v.cls = REJ -> If(op.res # "ok", "not a number")
            [] v.cls = MAY /\ op.res # "ok" -> {}
            [] OTHER -> If(op.res = "ok" /\ op.parsed # None /\ DEq(op.parsed[1], v.v) /\ op.parsed[1].s = v.v.s
                           /\ DEq(op.value, v.v) /\ op.value.s = v.v.s, "quantity of a text"))

BalFail(op) ==
    LET ts == Terms(op.terms)
    IN  IF ~Fits(ts) THEN {}
        ELSE If(op.res = "ok" /\ BalEq(op.amts, BalSum(ts)), "balance")

ParseAmtFail(op) ==
    LET t == TrimStart(op.text)
        a == ScanAmt(t)
    IN  IF t = << >> THEN {}
        ELSE IF a.cls = UN THEN {}
        ELSE IF a.cls = REJ \/ a.rest # << >> THEN If(op.res = "panic" \/ op.amt = None, "not an amount")
        ELSE If((a.cls = MAY /\ op.res = "panic") \/
                (op.res = "ok" /\ op.amt # None /\ Exactly([q |-> a.q, c |-> a.c], op.amt[1])),
                "parsed amount")

ExchFail(j, op) ==
    LET a == op.a
        b == op.b
        lot == Get(j.st.lots, a.c, None)
        unitNum == Abs(b.q)
        unitDen == IF op.per \/ IsZero(a.q) THEN DOne ELSE Abs(a.q)
        fin == IF op.per THEN Mul(b.q, Abs(a.q)) ELSE b.q
        none == IsZero(b.q) \/ a.c = b.c
    IN  IF ~Repr(fin) \/ a.c = << >> \/ b.c = << >> \/ ~Divides(unitNum, unitDen) THEN {}
        ELSE IF op.res # "ok" THEN {"exchange failed"}
        ELSE If(SameAmt(op.amount, a), "amount of the breakdown")
             \cup If(op.final.c = b.c /\ DEq(op.final.q, fin), "final cost")
             \cup (IF a.c \notin j.st.lotted
                   THEN If(op.basis.c = b.c /\ DEq(op.basis.q, fin), "basis cost without a lot")
                   ELSE IF lot = None \/ ~Repr(Mul(lot[1].q, a.q)) THEN {}
                   ELSE If(op.basis.c = lot[1].c /\ DEq(op.basis.q, Mul(lot[1].q, a.q)), "basis cost of the lot"))
             \cup If(none <=> op.price = None, "whether there is a price")
             \cup (IF op.price = None \/ none THEN {} ELSE
                   LET p == op.price[1] IN
                   If(p.s = a.c /\ p.t = op.moment /\ p.a.c = b.c, "commodity or moment of the price")
                   \cup If(Sign(p.a.q) >= 0 /\ Ratio(p.a.q, DOne, unitNum, unitDen), "price"))

-----------------------------------------------------------------------------
(* The verdict on one step: j before, j2 after *)

Reading == {"read"}

(* results of lookups against the accounts and commodities observed before *)
LookupFail(j, j2, op) ==
    LET p == j.o[1]
        o == op.o[1]
    IN  IF j.o = None \/ op.o = None THEN {}
        ELSE CASE op.op = "find" ->
                    (IF ~NameOk(op.name) THEN {} ELSE
                     If(op.res = "ok" /\ op.found =
                          (IF PathOf(op.name) \in TreePaths(p) THEN Some(PathOf(op.name)) ELSE None), "find_account"))
                    \cup If(o = p, "the lookup changed the journal")
               [] op.op = "cfind" ->
                    If(op.res = "ok" /\ op.found =
                         (IF op.sym \in ToSet(p.pool) THEN Some(op.sym) ELSE None), "find commodity")
                    \cup If(op.res = "ok" /\ op.same, "find_index")
                    \cup If(o = p, "the lookup changed the journal")
               [] op.op = "reg" ->
                    IF ~NameOk(op.name) THEN {} ELSE
                    If(op.res = "ok" /\ op.path = PathOf(op.name), "register_account")
                    \cup If(TreePaths(o) = TreePaths(p) \cup Ancestors(PathOf(op.name)), "accounts after registering")
                    \cup If(TreeWellFormed(p) => TreeWellFormed(o), "tree after registering")
                    \cup If(o.xacts = p.xacts /\ o.pool = p.pool, "registering changed the journal")
                    \cup If(\A k \in 1..Len(o.accts) :
                              IF o.accts[k].path \in TreePaths(p)
                              THEN LET a == AcctAt(p, o.accts[k].path)
                                   IN  a.links = o.accts[k].links /\ a.own = o.accts[k].own
                              ELSE o.accts[k].links = << >> /\ o.accts[k].own = << >>, "postings after registering")
               [] op.op \in {"obs", "price"} -> If(o = p, "looking changed the journal")
               [] OTHER -> {}

(* observations of two journals *)
SameFail(js1, op) ==
    LET a == Slot(js1, op.slot)
        b == Slot(js1, op.other)
    IN  IF a.o = None \/ b.o = None THEN {}
        ELSE IF ~a.live \/ ~b.live THEN {}
        ELSE IF op.mode = "lots"
        THEN LET x == a.o[1]
                 y == b.o[1]
             IN  If(x.xacts = y.xacts, "transactions") \cup If(x.accts = y.accts, "accounts and balances")
                 \cup If(x.prices = y.prices, "prices") \cup If(x.report = y.report, "report")
                 \cup If(ToSet(y.pool) \subseteq ToSet(x.pool), "commodities")
        ELSE IF a.st.xacts # b.st.xacts \/ a.st.accts # b.st.accts \/ a.st.pool # b.st.pool
                \/ a.st.prices # b.st.prices THEN {}
        ELSE LET x == a.o[1]
                 y == b.o[1]
             IN  If(x.xacts = y.xacts, "transactions") \cup If(x.accts = y.accts, "accounts and balances")
                 \cup If(x.prices = y.prices, "prices") \cup If(x.pool = y.pool, "commodities")
                 \cup If(x.report = y.report, "report") \cup If(x.areport = y.areport, "accounts report")

TwinFail(op) == If(op.twin, "different in another run")

Fails(j, s, j2, op, js1) ==
    LET e == Expected(s)
        isRead == op.op = "read"
        conf == j2.live /\ op.o # None
        obsv == j2.known /\ op.o # None          \* formulas on observations can be evaluated
        o == op.o[1]
        X == j2.st.xacts
        Z == j2.Z
        O == o.xacts
        shape == SameShape(X, O)
        shaped(S) == IF ~conf THEN {} ELSE IF ~shape THEN {"number of transactions or postings"} ELSE S
        accepted(reasons) ==
            IF isRead /\ j.live /\ e = "panic" /\ s.why \in reasons /\ op.res = "ok"
            THEN {"accepted: " \o s.why} ELSE {}
        valid == IF isRead /\ j.live /\ e = "ok" /\ op.res = "panic" THEN {"a valid journal was rejected"} ELSE {}
        loose(i) == ~j2.live \/ \E k \in 1..Len(X[i].posts) : X[i].posts[k].imp # None
    IN  IF op.res \in {"crash", "hang"} THEN {op.res}
        ELSE IF op.o # None /\ o.failed THEN {"observing the journal failed"}
        ELSE (IF Prop \in {"C24", "C26", "C29"} THEN {} ELSE valid) \cup
        CASE Prop = "C01" ->
               accepted({"unbalanced"})
               \cup (IF ~obsv THEN {} ELSE If(Balanced(o, Z, loose), "does not balance"))
          [] Prop = "C02" ->
               accepted({"elided"})
               \cup shaped(If(\A i \in 1..Len(X) : X[i].z \/ AllAmounts(O[i]), "posting without amount")
                           \cup If(\A i \in 1..Len(X) : X[i].z \/ \A k \in 1..Len(X[i].posts) :
                                      X[i].posts[k].elided => Completes(O[i], k), "omitted amount"))
          [] Prop = "C03" -> shaped(If(AllPosts(X, O, PostAsWritten), "posting") \cup If(o.allposts, "all_posts"))
          [] Prop = "C04" ->
               (IF op.o = None THEN {} ELSE If(TreeWellFormed(o), "account tree"))
               \cup (IF ~conf THEN {} ELSE If(SetMatches(j2.st, j2.st.accts, TreePaths(o)), "accounts"))
               \cup shaped(If(AllPosts(X, O, LAMBDA p, q : p.acct = q.acct), "account of a posting"))
          [] Prop = "C05" -> (IF ~obsv THEN {} ELSE If(o.hasbal /\ OwnIsSum(o, Z), "own balance"))
          [] Prop = "C06" -> (IF op.o = None THEN {} ELSE If(o.hasbal /\ TotalsRollUp(o), "total"))
          [] Prop = "C07" ->
               (IF op.o = None THEN {} ELSE If(o.hasbal /\ ReportOk(o.report, o), "balance report"))
               \cup (IF op.op = "run" THEN RunOutputFail(j, op) ELSE {})
          [] Prop = "C08" ->
               (IF op.o = None THEN {} ELSE If(AccountsReportOk(o.areport, o), "accounts report")
                                              \cup If(AccountsReportWalk(o.areport, o), "order of the accounts report"))
               \cup (IF op.op = "run" THEN RunOutputFail(j, op) ELSE {})
               \cup (IF op.op = "obs" THEN LookupFail(j, j2, op) ELSE {})
          [] Prop = "C09" -> (IF ~obsv THEN {} ELSE If(LinksValid(o, Z), "links"))
          [] Prop = "C10" ->
               (IF op.o = None THEN {} ELSE If(PoolWellFormed(o), "commodity pool")
                                            \cup If(UsedSyms(o) \subseteq ToSet(o.pool), "commodity outside of the pool"))
               \cup (IF ~conf THEN {} ELSE If(SetMatches(j2.st, j2.st.pool, ToSet(o.pool)), "commodities"))
               \cup (IF op.o = None \/ ~o.hasprices THEN {} ELSE If(Bag(o.nnodes) = Bag(o.pool), "nodes of the price graph"))
               \cup shaped(If(AllPosts(X, O, LAMBDA p, q :
                                (p.elided \/ (q.amt # None /\ q.amt[1].c = p.amt[1].c))
                                /\ (p.cost # None /\ q.cost # None => p.cost[1].c = q.cost[1].c)), "commodity of an amount"))
               \cup (IF op.op = "cfind" THEN LookupFail(j, j2, op) ELSE {})
          [] Prop = "C11" -> accepted({"samecomm"}) \cup shaped(If(AllPosts(X, O, CostAsWritten), "cost"))
          [] Prop = "C12" -> shaped(If(AllPosts(X, O, ImpliedCost), "implied cost"))
          [] Prop = "C13" -> (IF ~conf \/ ~o.hasprices THEN {} ELSE PricesFail(j2.st, o, "cost"))
          [] Prop = "C14" -> (IF ~conf \/ ~o.hasprices THEN {} ELSE PricesFail(j2.st, o, "P"))
               \cup (IF op.op # "addprice" THEN {} ELSE
                     LET c == AddedPrice(op).cls IN
                     If((c = OK => op.res = "ok") /\ (c = REJ => op.res # "ok"), "adding a price"))
          [] Prop = "C15" ->
               (IF op.op # "price" \/ j.o = None THEN {}
                ELSE IF op.res # "ok" THEN {"the lookup failed"}
                ELSE If(PriceOk(j.o[1].prices, op.s, op.d, op.found), "price lookup"))
          [] Prop = "C16" -> accepted({"header"}) \cup shaped(If(AllXacts(X, O, HeaderAsWritten), "header"))
          [] Prop = "C17" -> shaped(If(AllXacts(X, O, NotesAsWritten), "notes"))
          [] Prop \in {"C18", "C27"} ->
               (IF op.op = "same" THEN SameFail(js1, op) ELSE IF ~conf THEN {} ELSE ConformFail(j2, o))
          [] Prop = "C19" ->
               (IF op.op = "same" THEN SameFail(js1, op) ELSE IF ~conf THEN {} ELSE ConformFail(j2, o))
               \cup (IF isRead /\ j.live /\ s.status = "ok" /\ op.res = "ok"
                     THEN If(op.count = Len(s.xacts) - Len(j.st.xacts), "number returned by the read") ELSE {})
          [] Prop = "C20" ->
               accepted({"header", "price", "post", "include", "missing", "unreadable", "indented", "directive", "fault"})
               \cup shaped({})
               \cup (IF op.op # "run" THEN {} ELSE
                     IF RunExpected(op) = "panic" THEN If(op.res # "ok", "the command succeeded") ELSE {})
          [] Prop = "C21" ->
               (IF ~isRead \/ j.o = None \/ op.o = None THEN {}
                ELSE IF j.live /\ e = "panic" /\ ~s.may /\ op.res = "panic" /\ ~j2.known
                THEN {"number of transactions after a rejection"}
                ELSE IF ~j2.known THEN If(IsPrefix(j.o[1].xacts, O), "earlier transactions")
                ELSE If(Appends(j.o[1], o, Z), "history"))
               \cup (IF ~conf THEN {} ELSE If(SameShape(X, O), "number of transactions"))
          [] Prop = "C22" -> LookupFail(j, j2, op)
          [] Prop = "C23" ->
               (IF op.op # "run" THEN {} ELSE
                If(ResultOk(RunExpected(op), op.res), "result of the command") \cup RunOutputFail(j, op))
          [] Prop = "C24" -> (CASE op.op = "arith" -> ArithFail(op) [] op.op = "qconv" -> ConvFail(op) [] OTHER -> {})
          [] Prop = "C29" -> (IF op.op = "bal" THEN BalFail(op) ELSE {})
          [] Prop = "C25" -> TwinFail(op) \cup (IF op.op = "same" THEN SameFail(js1, op) ELSE {})
                             \cup (IF op.op = "obs" THEN LookupFail(j, j2, op) ELSE {})
          [] Prop = "C26" ->
               (IF op.op # "exch" THEN {} ELSE
                (IF j.live THEN ExchFail(j, op) ELSE {})
                \cup (IF j.o = None \/ op.o = None THEN {} ELSE
                      If(j.o[1].xacts = o.xacts /\ j.o[1].prices = o.prices /\ j.o[1].accts = o.accts,
                         "the exchange changed the journal")))
          [] Prop = "C28" ->
               (IF op.op = "pamt" THEN ParseAmtFail(op) ELSE {})
               \cup (IF op.op = "exch" /\ j.live THEN ExchFail(j, op) ELSE {})
               \cup shaped(If(AllPosts(X, O, PostAsWritten), "posting")
                           \cup If(AllPosts(X, O, CostAsWritten), "cost"))

-----------------------------------------------------------------------------
Init == /\ tid \in 1..Len(Traces)
        /\ l = 1
        /\ js = EmptyFn
        /\ bad = {}

Op == Traces[tid].ops[l]

(* a read of a source into a journal *)
Read == /\ Op.op = "read"
        /\ LET j  == Slot(js, Op.slot)
               s  == IF j.live THEN SpecRead(j, Op) ELSE j.st
               j2 == AfterRead(j, s, Op)
           IN  /\ js' = Put(js, Op.slot, j2)
               /\ bad' = Fails(j, s, j2, Op, js')

(* two journals compared with each other *)
Compare == /\ Op.op = "same"
           /\ js' = js
           /\ bad' = Fails(Slot(js, Op.slot), Empty, Slot(js, Op.slot), Op, js)

(* any other call on a journal *)
Call == /\ Op.op \notin {"read", "same"}
        /\ LET j  == Slot(js, Op.slot)
               j2 == IF Op.op = "run" THEN j ELSE AfterOther(j, Op)
           IN  /\ js' = Put(js, Op.slot, j2)
               /\ bad' = Fails(j, j.st, j2, Op, js')

Next == /\ l <= Len(Traces[tid].ops)
        /\ bad = {}
        /\ l' = l + 1
        /\ tid' = tid
        /\ Read \/ Compare \/ Call

Spec == Init /\ [][Next]_vars

(* the state is determined by the position in the trace *)
View == <<tid, l, bad>>

Conforms == bad = {} \/ PrintT(<<"FAIL", Traces[tid].id, l - 1, bad>>)

(* how much the specification determined: printed for the evidence *)
=============================================================================
