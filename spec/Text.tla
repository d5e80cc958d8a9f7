-------------------------------- MODULE Text -------------------------------
(* Text is a sequence of Unicode code points.                                 *)
EXTENDS Integers, Sequences, SequencesExt

LF == 10
CR == 13
TAB == 9
SP == 32

(* White_Space of Unicode, which is what Rust's trim and is_whitespace use. *)
IsWs(c) == \/ c \in 9..13 \/ c = 32
           \/ (c > 127 /\ (c \in {133, 160, 5760, 8232, 8233, 8239, 8287, 12288}
                           \/ c \in 8192..8202))
IsDigit(c) == c \in 48..57
IsAlpha(c) == c \in 65..90 \/ c \in 97..122

First(s, Test(_)) == SelectInSeq(s, Test)            \* 0 when there is none
From(s, i) == SubSeq(s, i, Len(s))

TrimStart(s) == LET i == SelectInSeq(s, LAMBDA c : ~IsWs(c))
                IN  IF i = 0 THEN << >> ELSE IF i = 1 THEN s ELSE SubSeq(s, i, Len(s))
TrimEnd(s) == LET i == SelectLastInSeq(s, LAMBDA c : ~IsWs(c))
              IN  IF i = Len(s) THEN s ELSE SubSeq(s, 1, i)
Trim(s) == TrimEnd(TrimStart(s))

Has(s, c) == SelectInSeq(s, LAMBDA x : x = c) # 0

MinOf(S) == CHOOSE i \in S : \A j \in S : i <= j
(* first position of the pair / triple, 0 when there is none *)
Find2(s, a, b) == LET S == {i \in 1..(Len(s) - 1) : s[i] = a /\ s[i + 1] = b}
                  IN  IF S = {} THEN 0 ELSE MinOf(S)
Find3(s, a, b, c) == LET S == {i \in 1..(Len(s) - 2) : s[i] = a /\ s[i + 1] = b /\ s[i + 2] = c}
                     IN  IF S = {} THEN 0 ELSE MinOf(S)

(* Split at every separator character; n separators give n + 1 parts. *)
Split(s, c) ==
    LET ix == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : s[i] = c)
        n  == Len(ix)
    IN  [j \in 1..(n + 1) |-> SubSeq(s, IF j = 1 THEN 1 ELSE ix[j - 1] + 1,
                                        IF j > n THEN Len(s) ELSE ix[j] - 1)]

(* The lines of a text, without the line feeds. Nothing follows a final line feed. *)
Lines(t) == LET p == Split(t, LF)
            IN  IF p[Len(p)] = << >> THEN SubSeq(p, 1, Len(p) - 1) ELSE p

(* The words of a line. *)
Words(s) == SelectSeq(Split([i \in 1..Len(s) |-> IF IsWs(s[i]) THEN SP ELSE s[i]], SP),
                      LAMBDA w : w # << >>)

(* code point order, as Rust's string comparison *)
TextLt(a, b) ==
    LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
        D == {i \in 1..n : a[i] # b[i]}
    IN  IF D = {} THEN Len(a) < Len(b) ELSE LET k == MinOf(D) IN a[k] < b[k]

(* order of paths: component by component *)
PathLt(p, q) ==
    LET n == IF Len(p) < Len(q) THEN Len(p) ELSE Len(q)
        D == {i \in 1..n : p[i] # q[i]}
    IN  IF D = {} THEN Len(p) < Len(q) ELSE LET k == MinOf(D) IN TextLt(p[k], q[k])

Join(path) == IF path = << >> THEN << >>
              ELSE FoldLeft(LAMBDA a, x : a \o <<58>> \o x, path[1], Tail(path))
=============================================================================
