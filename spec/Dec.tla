-------------------------------- MODULE Dec --------------------------------
(* Exact decimals of any size. TLC's integers have 32 bits, so magnitudes are   *)
(* sequences of base 10000 limbs, the least significant first, without high     *)
(* zero limbs. A decimal is [n: negative?, m: magnitude, s: scale], its value   *)
(* being (-1)^n * m / 10^s. Zero may carry either sign and any scale.           *)
EXTENDS Integers, Sequences, SequencesExt

B == 10000

Norm(m) == SubSeq(m, 1, SelectLastInSeq(m, LAMBDA x : x # 0))

Limb(m, i) == IF i <= Len(m) THEN m[i] ELSE 0

Maxi(a, b) == IF a >= b THEN a ELSE b

Carry(r) == IF r.c = 0 THEN r.r ELSE Append(r.r, r.c)

MagAdd(a, b) ==
    IF a = << >> THEN b ELSE IF b = << >> THEN a ELSE
    IF Len(a) = 1 /\ Len(b) = 1
    THEN LET t == a[1] + b[1] IN IF t < B THEN <<t>> ELSE <<t - B, 1>>
    ELSE LET step(r, i) == LET t == Limb(a, i) + Limb(b, i) + r.c
                           IN  [c |-> t \div B, r |-> Append(r.r, t % B)]
         IN  Carry(FoldLeft(step, [c |-> 0, r |-> << >>],
                            [i \in 1..Maxi(Len(a), Len(b)) |-> i]))

(* a - b, for a >= b *)
MagSub(a, b) ==
    IF b = << >> THEN a ELSE
    LET step(r, i) == LET t == a[i] - Limb(b, i) - r.c
                      IN  IF t < 0 THEN [c |-> 1, r |-> Append(r.r, t + B)]
                                   ELSE [c |-> 0, r |-> Append(r.r, t)]
    IN  Norm(FoldLeft(step, [c |-> 0, r |-> << >>], [i \in 1..Len(a) |-> i]).r)

(* -1, 0, 1 *)
MagCmp(a, b) ==
    IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE
    IF a = b THEN 0 ELSE
    LET D == {i \in 1..Len(a) : a[i] # b[i]}
        k == CHOOSE i \in D : \A j \in D : j <= i
    IN  IF a[k] < b[k] THEN -1 ELSE 1

(* 0 <= k < B *)
MagMulSmall(a, k) ==
    IF k = 0 \/ a = << >> THEN << >> ELSE IF k = 1 THEN a ELSE
    LET step(r, x) == LET t == x * k + r.c
                      IN  [c |-> t \div B, r |-> Append(r.r, t % B)]
    IN  Carry(FoldLeft(step, [c |-> 0, r |-> << >>], a))

Zeros(k) == [i \in 1..k |-> 0]

MagShift(a, k) == IF a = << >> THEN a ELSE Zeros(k) \o a

MagMul(a, b) ==
    IF a = << >> \/ b = << >> THEN << >> ELSE
    FoldLeft(LAMBDA r, j : MagAdd(r, MagShift(MagMulSmall(a, b[j]), j - 1)),
             << >>, [j \in 1..Len(b) |-> j])

Pow10(k) == CASE k = 0 -> 1 [] k = 1 -> 10 [] k = 2 -> 100 [] k = 3 -> 1000

MagTen(a, k) == IF k = 0 THEN a ELSE MagShift(MagMulSmall(a, Pow10(k % 4)), k \div 4)

(* from a sequence of decimal digits, the most significant first *)
MagOfDigits(ds) ==
    LET n  == Len(ds)
        nl == (n + 3) \div 4
        dg(i) == IF i >= 1 THEN ds[i] ELSE 0
        limb(j) == LET e == n - 4 * (j - 1)
                   IN  1000 * dg(e - 3) + 100 * dg(e - 2) + 10 * dg(e - 1) + dg(e)
    IN  Norm([j \in 1..nl |-> limb(j)])

-----------------------------------------------------------------------------
Dec(n, m, s) == [n |-> n, m |-> m, s |-> s]
DZero == Dec(FALSE, << >>, 0)
DOne  == Dec(FALSE, <<1>>, 0)
DInt(k) == IF k < 0 THEN Dec(TRUE, Norm(<<(-k) % B, ((-k) \div B)>>), 0)
                    ELSE Dec(FALSE, Norm(<<k % B, k \div B>>), 0)

IsZero(d) == d.m = << >>
Neg(d) == Dec(~d.n, d.m, d.s)
Abs(d) == Dec(FALSE, d.m, d.s)
(* -1, 0, 1 *)
Sign(d) == IF d.m = << >> THEN 0 ELSE IF d.n THEN -1 ELSE 1

Rescale(d, s) == IF s = d.s THEN d ELSE Dec(d.n, MagTen(d.m, s - d.s), s)

Add(x, y) ==
    LET s == Maxi(x.s, y.s)
        a == Rescale(x, s)
        b == Rescale(y, s)
    IN  IF a.n = b.n THEN Dec(a.n, MagAdd(a.m, b.m), s)
        ELSE LET c == MagCmp(a.m, b.m)
             IN  IF c = 0 THEN Dec(FALSE, << >>, s)
                 ELSE IF c > 0 THEN Dec(a.n, MagSub(a.m, b.m), s)
                 ELSE Dec(b.n, MagSub(b.m, a.m), s)

Sub(x, y) == Add(x, Neg(y))

Mul(x, y) == Dec(x.n # y.n, MagMul(x.m, y.m), x.s + y.s)

DCmp(x, y) == Sign(Sub(x, y))
DEq(x, y) == IF x.s = y.s THEN x.m = y.m /\ (x.n = y.n \/ x.m = << >>) ELSE DCmp(x, y) = 0
DSum(ds) == FoldLeft(Add, DZero, ds)

(* What the implementation's 96 bit decimals can hold exactly. *)
Lim96 == <<336, 4395, 5935, 4337, 1426, 1625, 9228, 7>>
Repr(d) == d.s <= 28 /\ MagCmp(d.m, Lim96) < 0

(* x and y agree to about k significant digits: |x - y| * 10^k <= |y| *)
NearK(x, y, k) ==
    LET e == Sub(x, y) IN
    \/ IsZero(e)
    \/ DCmp(Dec(FALSE, MagTen(e.m, k), e.s), Abs(y)) <= 0
Near(x, y) == NearK(x, y, 18)

(* for what does not fit and was rounded on the way *)
Roughly(x, y) == \/ NearK(x, y, 12)
                 \/ LET e == Sub(x, y) IN DCmp(Dec(FALSE, MagTen(e.m, 15), e.s), DOne) <= 0

(* r is num / den to k significant digits or to 27 decimals, what a division can give *)
Quotient(r, num, den, k) ==
    \/ NearK(Mul(r, den), num, k)
    \/ LET e == Sub(Mul(r, den), num)
       IN  DCmp(Dec(FALSE, MagTen(e.m, 27), e.s), Abs(den)) <= 0

(* x is q * (num / den), for a unit price num / den that was computed by a division; *)
(* every rounding is to 28 decimals                                                   *)
Ratio(x, q, num, den) ==
    \/ Near(Mul(x, den), Mul(q, num))
    \/ LET e == Sub(Mul(x, den), Mul(q, num))
       IN  DCmp(Dec(FALSE, MagTen(e.m, 26), e.s), Mul(Add(Abs(q), DOne), Abs(den))) <= 0

(* the quotient fits *)
Divides(num, den) == DCmp(Abs(num), Mul(Abs(den), Dec(FALSE, MagTen(<<1>>, 27), 0))) <= 0
=============================================================================
