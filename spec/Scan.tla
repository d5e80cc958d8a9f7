-------------------------------- MODULE Scan -------------------------------
(* The grammar: what a line of a journal means.                               *)
(*                                                                            *)
(* Every token carries a class:                                               *)
(*   OK   the text has exactly this meaning and must be accepted              *)
(*   MAY  the text may be rejected; when it is accepted it has this meaning   *)
(*   REJ  the text is malformed and must be rejected                          *)
(*   UN   the specification leaves the text open                              *)
(* The class of a composite is the highest class of its parts.                *)
EXTENDS Dec, Text

OK == 0
MAY == 1
REJ == 2
UN == 3

None == << >>
Some(x) == <<x>>

-----------------------------------------------------------------------------
(* Dates *)

LeapYear(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == CASE m \in {1, 3, 5, 7, 8, 10, 12} -> 31
                  [] m \in {4, 6, 9, 11} -> 30
                  [] OTHER -> IF LeapYear(y) THEN 29 ELSE 28
ValidDate(y, m, d) == m \in 1..12 /\ d >= 1 /\ d <= DaysIn(y, m)

Num2(t, i) == 10 * (t[i] - 48) + (t[i + 1] - 48)

DateShape(t) == /\ Len(t) = 10
                /\ t[5] = 45 /\ t[8] = 45
                /\ \A i \in {1, 2, 3, 4, 6, 7, 9, 10} : IsDigit(t[i])

NoDate == <<0, 0, 0>>

AllDigits(t) == t # << >> /\ \A i \in 1..Len(t) : IsDigit(t[i])
IntOf(t) == FoldLeft(LAMBDA a, c : 10 * a + (c - 48), 0, t)

(* the month and the day, or the parts of the time, without the leading zero *)
LooseDate(t) == LET w == Split(t, 45)
                IN  /\ Len(w) = 3
                    /\ \A i \in 1..3 : AllDigits(w[i])
                    /\ Len(w[1]) = 4 /\ Len(w[2]) <= 2 /\ Len(w[3]) <= 2
LooseVal(t) == LET w == Split(t, 45) IN <<IntOf(w[1]), IntOf(w[2]), IntOf(w[3])>>

ScanDate(t) ==
    IF DateShape(t)
    THEN LET y == 100 * Num2(t, 1) + Num2(t, 3)
             m == Num2(t, 6)
             d == Num2(t, 9)
         IN  IF ValidDate(y, m, d) THEN [cls |-> OK, v |-> <<y, m, d>>]
                                   ELSE [cls |-> REJ, v |-> NoDate]
    ELSE IF LooseDate(t)
    THEN LET d == LooseVal(t)
         IN  IF ValidDate(d[1], d[2], d[3]) THEN [cls |-> MAY, v |-> d] ELSE [cls |-> REJ, v |-> NoDate]
    ELSE [cls |-> IF \/ t = << >>
                     \/ \E i \in 1..Len(t) : t[i] > 127 \/ t[i] = 43 \/ IsWs(t[i])
                     \/ /\ \A i \in 1..Len(t) : IsDigit(t[i]) \/ t[i] = 45
                        /\ Len(SelectSeq(t, LAMBDA c : c = 45)) >= 2
                  THEN UN ELSE REJ,
          v |-> NoDate]

TimeShape(t) == /\ Len(t) = 8
                /\ t[3] = 58 /\ t[6] = 58
                /\ \A i \in {1, 2, 4, 5, 7, 8} : IsDigit(t[i])

ScanTime(t) ==
    LET w == Split(t, 58)
        ok == Len(w) \in {2, 3} /\ \A i \in 1..Len(w) : AllDigits(w[i]) /\ Len(w[i]) <= 2
        v == <<IntOf(w[1]), IntOf(w[2]), IF Len(w) = 3 THEN IntOf(w[3]) ELSE 0>>
    IN  IF ~ok THEN [cls |-> REJ, v |-> <<0, 0, 0>>]
        ELSE IF v[1] <= 23 /\ v[2] <= 59 /\ v[3] <= 59
        THEN [cls |-> IF TimeShape(t) THEN OK ELSE MAY, v |-> v]
        ELSE [cls |-> IF v[3] = 60 THEN UN ELSE REJ, v |-> <<0, 0, 0>>]

Midnight == <<0, 0, 0>>

-----------------------------------------------------------------------------
(* Numbers and amounts *)

ScanNum(t) ==
    LET sgn  == t # << >> /\ t[1] = 45
        plus == t # << >> /\ t[1] = 43
        body == IF sgn \/ plus THEN Tail(t) ELSE t
        dot  == SelectInSeq(body, LAMBDA c : c = 46)
        ip   == IF dot = 0 THEN body ELSE SubSeq(body, 1, dot - 1)
        fp   == IF dot = 0 THEN << >> ELSE SubSeq(body, dot + 1, Len(body))
        ds   == ip \o fp
    IN  IF ds # << >> /\ \A i \in 1..Len(ds) : IsDigit(ds[i])
        THEN LET val(f) == LET d == ip \o f
                           IN  Dec(sgn, MagOfDigits([i \in 1..Len(d) |-> d[i] - 48]), Len(f))
                 v == val(fp)
                 (* a number that cannot be held exactly may be rejected, never rounded *)
                 short == val(SubSeq(fp, 1, SelectLastInSeq(fp, LAMBDA c : c # 48)))
             IN  [cls |-> IF ~Repr(v) THEN (IF Repr(short) THEN UN ELSE MAY)
                          ELSE IF (dot = 0 \/ fp # << >>) /\ ~plus
                          THEN OK ELSE MAY,
                  v |-> v]
        ELSE [cls |-> IF Has(t, 95) THEN UN ELSE REJ, v |-> DZero]

IsQtyChar(c) == IsDigit(c) \/ c = 45 \/ c = 46 \/ c = 44

(* letters, $ % _ . ' & # : ~ ? ! ^ / * < > and what is beyond ASCII *)
SymChar(c) == \/ IsAlpha(c) \/ (c > 127 /\ ~IsWs(c))
              \/ c \in {36, 37, 95, 46, 39, 38, 35, 58, 126, 63, 33, 94, 47, 42, 60, 62}
SymCls(s) == IF \A i \in 1..Len(s) : SymChar(s[i]) THEN OK ELSE UN

(* the longest prefix of characters that do not satisfy End, and the trimmed rest *)
Run(t, End(_)) == LET e == SelectInSeq(t, End)
                  IN  IF e = 0 THEN [p |-> t, r |-> << >>]
                      ELSE [p |-> SubSeq(t, 1, e - 1), r |-> TrimStart(From(t, e))]

(* A symbol ends before a space, @ and a number. *)
RunSym(t) ==
    LET ends(i) == \/ IsWs(t[i]) \/ t[i] = 64 \/ IsDigit(t[i]) \/ t[i] = 45
                   \/ (t[i] = 46 /\ i < Len(t) /\ IsDigit(t[i + 1]))
        E == {i \in 1..Len(t) : ends(i)}
        e == CHOOSE i \in E : \A j \in E : i <= j
    IN  IF E = {} THEN [p |-> t, r |-> << >>]
        ELSE [p |-> SubSeq(t, 1, e - 1), r |-> TrimStart(From(t, e))]

(* The amount at the beginning of a non-empty text that does not start with a space. *)
(* has: there is an amount; rest: what follows it.                                   *)
ScanAmt(t) ==
    LET numFirst == IsQtyChar(t[1])
        a == IF numFirst THEN Run(t, LAMBDA c : ~IsQtyChar(c)) ELSE RunSym(t)
        b == IF numFirst THEN RunSym(a.r) ELSE Run(a.r, LAMBDA c : ~IsQtyChar(c))
        qty == IF numFirst THEN a.p ELSE b.p
        sym == IF numFirst THEN b.p ELSE a.p
        num == ScanNum(qty)
        sc  == SymCls(sym)
        cls == IF qty = << >> THEN (IF sc = UN THEN UN ELSE REJ)
               ELSE Maxi(num.cls, sc)
    IN  [cls |-> cls, has |-> qty # << >>, q |-> num.v, c |-> sym, rest |-> b.r]

-----------------------------------------------------------------------------
(* Lot annotations: {amount} and [date], each at most once, in any order *)

RECURSIVE ScanLots(_)
ScanLots(a) ==
    IF a.cls >= REJ \/ a.rest = << >> THEN a ELSE
    CASE a.rest[1] = 123 ->                                  \* {
           LET e == SelectInSeq(a.rest, LAMBDA c : c = 125)
               inner == TrimStart(SubSeq(a.rest, 2, e - 1))
               x == ScanAmt(inner)
               bad(c) == [a EXCEPT !.cls = c]
           IN  IF e = 0 \/ a.lot # None THEN bad(REJ)
               ELSE IF inner = << >> THEN bad(REJ)
               ELSE IF x.cls >= REJ THEN bad(x.cls)
               ELSE IF x.rest # << >> THEN bad(REJ)
               ELSE IF x.c = << >> THEN bad(UN)
               ELSE ScanLots([a EXCEPT !.cls = Maxi(@, x.cls),
                                       !.lot = Some([q |-> x.q, c |-> x.c]),
                                       !.rest = TrimStart(From(a.rest, e + 1))])
      [] a.rest[1] = 91 ->                                   \* [
           LET e == SelectInSeq(a.rest, LAMBDA c : c = 93)
               inner == SubSeq(a.rest, 2, e - 1)
               s == SelectInSeq(inner, LAMBDA c : c = 61 \/ c = SP)
               d == ScanDate(IF s = 0 THEN inner ELSE SubSeq(inner, 1, s - 1))
               bad(c) == [a EXCEPT !.cls = c]
           IN  IF e = 0 \/ a.lotd # None THEN bad(REJ)
               ELSE IF s # 0 /\ Trim(From(inner, s)) # << >> THEN bad(REJ)
               ELSE IF d.cls >= REJ THEN bad(d.cls)
               ELSE ScanLots([a EXCEPT !.cls = Maxi(@, d.cls),
                                       !.lotd = Some(d.v),
                                       !.rest = TrimStart(From(a.rest, e + 1))])
      [] a.rest[1] = 40 -> [a EXCEPT !.cls = UN]             \* (
      [] OTHER -> a

(* What is written after the account of a posting: AMOUNT [LOTS] [@ COST | @@ COST] *)
ScanPostAmount(t) ==
    LET x == ScanAmt(t)
        l == ScanLots([cls |-> x.cls, rest |-> x.rest, lot |-> None, lotd |-> None])
        r == l.rest
        none == [cls |-> l.cls, amt |-> Some([q |-> x.q, c |-> x.c]), lot |-> l.lot,
                 lotd |-> l.lotd, per |-> FALSE, cost |-> None]
    IN  IF l.cls >= REJ THEN none
        ELSE IF r = << >> THEN none
        ELSE IF r[1] # 64 THEN [none EXCEPT !.cls = REJ]     \* @
        ELSE LET tot == Len(r) >= 2 /\ r[2] = 64
                 ct  == TrimStart(From(r, IF tot THEN 3 ELSE 2))
             IN  IF ct = << >> \/ ct[1] = 64 THEN [none EXCEPT !.cls = REJ]
                 ELSE LET y == ScanAmt(ct)
                          open == \/ y.c = << >> \/ x.c = << >>
                                  \/ Sign(y.q) < 0 \/ (tot /\ IsZero(x.q))
                      IN  [none EXCEPT
                             !.cls = IF y.cls < REJ /\ y.rest # << >> THEN REJ
                                     ELSE IF y.cls < REJ /\ open THEN UN
                                     ELSE Maxi(@, y.cls),
                             !.per = ~tot,
                             !.cost = Some([q |-> y.q, c |-> y.c])]

-----------------------------------------------------------------------------
(* The lines of a transaction *)

EmptyPost == [k |-> "post", cls |-> OK, acct |-> << >>, amt |-> None, cost |-> None,
              per |-> FALSE, lot |-> None, lotd |-> None, inote |-> FALSE]

AcctCls(name, path) ==
    IF \/ name = << >>
       \/ \E i \in 1..Len(name) : IsWs(name[i]) /\ name[i] # SP /\ (name[i] < 128 \/ i = 1 \/ i = Len(name))
    THEN UN ELSE OK

(* t: without the indentation and the trailing spaces, not empty *)
ScanPost(t) ==
    LET sep  == Find2(t, SP, SP)
        name == IF sep = 0 THEN t ELSE SubSeq(t, 1, sep - 1)
        path == Split(name, 58)
        rem0 == IF sep = 0 THEN << >> ELSE From(t, sep + 2)
        semi == SelectInSeq(rem0, LAMBDA c : c = 59)
        rem  == Trim(IF semi = 0 THEN rem0 ELSE SubSeq(rem0, 1, semi - 1))
        p    == [EmptyPost EXCEPT !.cls = AcctCls(name, path), !.acct = path, !.inote = semi # 0]
    IN  IF rem = << >> THEN p
        ELSE LET a == ScanPostAmount(rem)
             IN  [p EXCEPT !.cls = Maxi(@, a.cls), !.amt = a.amt, !.cost = a.cost,
                           !.per = a.per, !.lot = a.lot, !.lotd = a.lotd]

Tok(kind, c) == [k |-> kind, cls |-> c]

(* A line read inside a transaction, without its line feed. *)
ScanXactLine(line) ==
    IF line = << >> THEN Tok("end", OK)
    ELSE LET t == Trim(line) IN
    CASE line[1] \in {SP, TAB} ->
           LET c == IF line[1] = TAB THEN MAY ELSE OK IN
           IF t = << >> THEN Tok("end", c)
           ELSE IF t[1] = 59 THEN [k |-> "note", cls |-> c, note |-> Trim(Tail(t))]
           ELSE LET p == ScanPost(t) IN [p EXCEPT !.cls = Maxi(@, c)]
      [] line[1] = CR -> IF t = << >> THEN Tok("end", OK) ELSE Tok("un", UN)
      [] IsWs(line[1]) -> Tok("un", UN)
      [] OTHER -> Tok("top", MAY)      \* no blank line between the directives

-----------------------------------------------------------------------------
(* Top-level lines *)

(* DATE[=DATE] [PAYEE][  ;NOTE] *)
ScanHeader(l) ==
    LET de  == SelectInSeq(l, LAMBDA c : c = 61 \/ c = SP)
        dt  == ScanDate(IF de = 0 THEN l ELSE SubSeq(l, 1, de - 1))
        r0  == IF de = 0 THEN << >> ELSE From(l, de)
        isA == r0 # << >> /\ r0[1] = 61
        r1  == IF isA THEN Tail(r0) ELSE r0
        ae  == SelectInSeq(r1, LAMBDA c : c = SP)
        at  == IF ~isA THEN << >> ELSE IF ae = 0 THEN r1 ELSE SubSeq(r1, 1, ae - 1)
        ad  == ScanDate(at)
        rest == IF ~isA THEN r0 ELSE IF ae = 0 THEN << >> ELSE From(r1, ae)
        ni  == Find3(rest, SP, SP, 59)
        payee == Trim(IF ni = 0 THEN rest ELSE SubSeq(rest, 1, ni - 1))
        note  == IF ni = 0 THEN << >> ELSE Trim(From(rest, ni + 3))
    IN  [k |-> "header",
         cls |-> Maxi(dt.cls, IF ~isA THEN OK ELSE IF at = << >> THEN REJ ELSE ad.cls),
         date |-> dt.v,
         aux |-> IF isA THEN Some(ad.v) ELSE None,
         payee |-> payee,
         note |-> IF note = << >> THEN None ELSE Some(note)]

(* P DATE [TIME] SYMBOL QUANTITY SYMBOL *)
ScanPrice(l) ==
    LET ws == SelectSeq(Split([i \in 1..(Len(l) - 1) |-> IF l[i + 1] = TAB THEN SP ELSE l[i + 1]], SP),
                        LAMBDA w : w # << >>)
        n  == Len(ws)
        dt == ScanDate(ws[1])
        isT == IsDigit(ws[2][1])
        tm == IF isT THEN ScanTime(ws[2]) ELSE [cls |-> OK, v |-> Midnight]
        r  == From(ws, IF isT THEN 3 ELSE 2)
        num == ScanNum(r[2])
        cls == IF n < 2 THEN REJ
               ELSE IF dt.cls >= REJ THEN dt.cls
               ELSE IF tm.cls >= REJ THEN tm.cls
               ELSE IF Len(r) < 3 THEN REJ
               ELSE IF num.cls >= REJ THEN num.cls
               ELSE IF r[1] = r[3] THEN REJ
               ELSE Maxi(Maxi(IF Len(r) > 3 THEN MAY ELSE OK, Maxi(dt.cls, tm.cls)),
                         Maxi(num.cls, Maxi(SymCls(r[1]), SymCls(r[3]))))
    IN  IF Len(l) >= 2 /\ l[2] # SP /\ l[2] # TAB
        THEN Tok("price", IF IsDigit(l[2]) \/ IsWs(l[2]) \/ l[2] \in {43, 45} THEN UN ELSE REJ)
        ELSE IF \E i \in 1..Len(l) : IsWs(l[i]) /\ l[i] \notin {SP, TAB} THEN Tok("price", UN)
        ELSE IF cls >= REJ THEN Tok("price", cls)
        ELSE [k |-> "price", cls |-> cls, t |-> dt.v \o tm.v, s |-> r[1], q |-> num.v, d |-> r[3]]

INCLUDE == <<105, 110, 99, 108, 117, 100, 101>>

(* A line read outside of a transaction, without its line feed. *)
ScanTopLine(line) ==
    LET l == TrimEnd(line) IN
    IF l = << >> THEN Tok("blank", OK)
    ELSE LET c == line[1] IN
    CASE c \in {35, 42, 59, 124} -> Tok("comment", OK)
      [] c = 45 -> Tok("directive", REJ)
      [] IsDigit(c) -> ScanHeader(l)
      [] c = SP \/ c = TAB -> Tok("indented", REJ)
      [] IsWs(c) \/ c = 65279 -> Tok("un", UN)
      [] c = 80 -> ScanPrice(l)
      [] OTHER ->
           LET w == Words(l) IN
           IF w[1] # INCLUDE THEN Tok("directive", REJ)
           ELSE IF Len(w) < 2 THEN Tok("include", REJ)
           ELSE LET name == Trim(From(l, Len(INCLUDE) + 1)) IN     \* all of the line: names may contain spaces
                IF \/ name[1] \in {92, 126}
                   \/ \E i \in 1..Len(name) : IsWs(name[i]) /\ name[i] # SP
                THEN Tok("include", UN)
                ELSE [k |-> "include", cls |-> OK, name |-> name]
=============================================================================
