------------------------------- MODULE BigInt -------------------------------
(* Integers of any size, for properties whose values do not fit the integers of
   TLC.  A number is a record with sign s (-1, 0, 1) and magnitude m, a little
   endian sequence of digits in base 2^15 without leading zero digits.  The
   module BigIntMC checks these definitions against TLC's integers.          *)
EXTENDS Integers, Sequences, Bitwise

LOCAL B == 32768

RECURSIVE Trim(_)
Trim(m) == IF m = <<>> \/ m[Len(m)] # 0 THEN m ELSE Trim(SubSeq(m, 1, Len(m) - 1))

Mk(s, m) == LET t == Trim(m) IN [s |-> IF t = <<>> THEN 0 ELSE s, m |-> t]

RECURSIVE MagOf(_)
MagOf(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o MagOf(n \div B)
\* Of a TLC integer (not the least one)
Big(n) == IF n < 0 THEN [s |-> -1, m |-> MagOf(-n)] ELSE Mk(1, MagOf(n))
Zero == [s |-> 0, m |-> <<>>]
One == [s |-> 1, m |-> <<1>>]
Two == [s |-> 1, m |-> <<2>>]

LOCAL Dig(m, i) == IF i <= Len(m) THEN m[i] ELSE 0
LOCAL Max2(a, b) == IF a > b THEN a ELSE b

RECURSIVE CmpM(_, _, _)
CmpM(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE CmpM(a, b, i - 1)
CompareM(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE CmpM(a, b, Len(a))

RECURSIVE AddM(_, _, _, _)
AddM(a, b, i, c) ==
    IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
    ELSE LET t == Dig(a, i) + Dig(b, i) + c IN <<t % B>> \o AddM(a, b, i + 1, t \div B)
RECURSIVE SubM(_, _, _, _)
SubM(a, b, i, c) ==         \* a >= b
    IF i > Len(a) THEN <<>>
    ELSE LET t == a[i] - Dig(b, i) - c IN <<IF t < 0 THEN t + B ELSE t>> \o SubM(a, b, i + 1, IF t < 0 THEN 1 ELSE 0)
RECURSIVE MulD(_, _, _, _)
MulD(a, d, i, c) ==
    IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
    ELSE LET t == a[i] * d + c IN <<t % B>> \o MulD(a, d, i + 1, t \div B)
RECURSIVE MulM(_, _, _)
MulM(a, b, i) == IF i > Len(b) THEN <<>>
                 ELSE AddM(MulD(a, b[i], 1, 0), LET r == MulM(a, b, i + 1) IN IF r = <<>> THEN <<>> ELSE <<0>> \o r, 1, 0)

Neg(a) == [s |-> -a.s, m |-> a.m]
Abs(a) == [s |-> IF a.s = 0 THEN 0 ELSE 1, m |-> a.m]
Add(a, b) ==
    IF a.s = 0 THEN b ELSE IF b.s = 0 THEN a
    ELSE IF a.s = b.s THEN [s |-> a.s, m |-> AddM(a.m, b.m, 1, 0)]
    ELSE LET c == CompareM(a.m, b.m) IN
         IF c = 0 THEN Zero ELSE IF c > 0 THEN Mk(a.s, SubM(a.m, b.m, 1, 0)) ELSE Mk(b.s, SubM(b.m, a.m, 1, 0))
Sub(a, b) == Add(a, Neg(b))
Mul(a, b) == IF a.s = 0 \/ b.s = 0 THEN Zero ELSE Mk(a.s * b.s, MulM(a.m, b.m, 1))

Cmp(a, b) == IF a.s # b.s THEN (IF a.s < b.s THEN -1 ELSE 1) ELSE a.s * CompareM(a.m, b.m)
Le(a, b) == Cmp(a, b) <= 0
Lt(a, b) == Cmp(a, b) < 0
In(a, lo, hi) == Le(lo, a) /\ Le(a, hi)


Pow2(n) == Mk(1, [i \in 1..(n \div 15) |-> 0] \o <<shiftR(16384, 14 - (n % 15))>>)

\* Least d' in lo..hi with d * d' <= r < d * (d' + 1)
RECURSIVE FindDig(_, _, _, _)
FindDig(r, d, lo, hi) ==
    IF lo = hi THEN lo
    ELSE LET mid == (lo + hi + 1) \div 2 IN
         IF CompareM(Trim(MulD(d, mid, 1, 0)), r) <= 0 THEN FindDig(r, d, mid, hi) ELSE FindDig(r, d, lo, mid - 1)
RECURSIVE DivM(_, _, _, _, _)
DivM(a, d, i, q, r) ==      \* q: digits found (most significant last to be put in front), r: remainder
    IF i = 0 THEN <<q, r>>
    ELSE LET r1 == Trim(<<a[i]>> \o r)
             g  == IF CompareM(r1, d) < 0 THEN 0 ELSE FindDig(r1, d, 1, B - 1)
         IN DivM(a, d, i - 1, <<g>> \o q, Trim(SubM(r1, MulD(d, g, 1, 0), 1, 0)))
\* The same for a divisor of one digit
RECURSIVE DivS(_, _, _, _, _)
DivS(a, d, i, q, r) == IF i = 0 THEN <<q, IF r = 0 THEN <<>> ELSE <<r>>>>
                       ELSE LET t == r * B + a[i] IN DivS(a, d, i - 1, <<t \div d>> \o q, t % d)
LOCAL DivMag(a, d) == IF Len(d) = 1 THEN DivS(a, d[1], Len(a), <<>>, 0) ELSE DivM(a, d, Len(a), <<>>, <<>>)
\* Truncated towards zero
Quot(a, b) == LET x == DivMag(a.m, b.m) IN Mk(a.s * b.s, x[1])
Rem(a, b)  == LET x == DivMag(a.m, b.m) IN Mk(a.s, x[2])
\* Rounded down; the remainder has the sign of the divisor
FMod(a, b) == LET r == Rem(a, b) IN IF r.s = 0 \/ r.s = b.s THEN r ELSE Add(r, b)
FDiv(a, b) == LET q == Quot(a, b) r == Rem(a, b) IN IF r.s = 0 \/ r.s = b.s THEN q ELSE Sub(q, One)

Wrap(a, n, signed) ==       \* representative modulo 2^n
    LET u == FMod(a, Pow2(n)) IN IF signed /\ Le(Pow2(n - 1), u) THEN Sub(u, Pow2(n)) ELSE u

LOCAL BitM(f(_, _), a, b) == [i \in 1..Max2(Len(a), Len(b)) |-> f(Dig(a, i), Dig(b, i))]
LOCAL BAnd(x, y) == x & y
LOCAL BOr(x, y)  == x | y
LOCAL BXor(x, y) == x ^^ y
\* Of numbers that are not negative
AndN(a, b) == Mk(1, BitM(BAnd, a.m, b.m))
OrN(a, b)  == Mk(1, BitM(BOr,  a.m, b.m))
XorN(a, b) == Mk(1, BitM(BXor, a.m, b.m))

RECURSIVE PowN(_, _)
PowN(a, n) == IF n = 0 THEN One ELSE LET h == PowN(a, n \div 2) IN LET q == Mul(h, h) IN IF n % 2 = 1 THEN Mul(q, a) ELSE q

IsOdd(a) == a.m # <<>> /\ a.m[1] % 2 = 1
\* Number of bits of the magnitude
RECURSIVE BitLenD(_)
BitLenD(d) == IF d = 0 THEN 0 ELSE 1 + BitLenD(d \div 2)
BitLen(a) == IF a.m = <<>> THEN 0 ELSE 15 * (Len(a.m) - 1) + BitLenD(a.m[Len(a.m)])
\* Number of digits of the magnitude in base b (2..32767)
RECURSIVE NumDigitsM(_, _)
NumDigitsM(m, b) == IF m = <<>> THEN 0 ELSE 1 + NumDigitsM(Trim(DivS(m, b, Len(m), <<>>, 0)[1]), b)
NumDigits(a, b) == NumDigitsM(a.m, b)
=============================================================================
