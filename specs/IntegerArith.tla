---------------------------- MODULE IntegerArith ----------------------------
(* What the integer functions must compute: the exact mathematical result when
   it lies in the range lo..hi of the target type, else failure without change. *)
EXTENDS BigInt

\* ---- exact results
Exponentiation(a, e) ==     \* e >= 0; results beyond 300 bits are represented by one that is too large for any type
    IF e.s = 0 THEN One
    ELSE IF Le(Abs(a), One) THEN (IF a.s >= 0 \/ IsOdd(e) THEN a ELSE One)
    ELSE IF Len(e.m) > 1 \/ e.m[1] * (BitLen(a) - 1) > 300 THEN Mul(Pow2(300), [a EXCEPT !.s = IF IsOdd(e) THEN a.s ELSE 1])
    ELSE PowN(a, e.m[1])
Exact(op, a, b) ==
    CASE op = "add" -> Add(a, b) [] op = "sub" -> Sub(a, b) [] op = "mul" -> Mul(a, b)
      [] op = "pow" -> Exponentiation(a, b)
      [] op = "shl" -> IF a.s = 0 THEN Zero ELSE IF Len(b.m) > 1 \/ (b.m # <<>> /\ b.m[1] > 600) THEN Pow2(600) ELSE Mul(a, Pow2(IF b.m = <<>> THEN 0 ELSE b.m[1]))
      [] op = "cast" -> a
\* One divided by a to the power of e, e > 0, truncated; a # 0
Reciprocal(a, e) == IF Abs(a) = One THEN Exponentiation(a, e) ELSE Zero

\* <<success, value afterwards>>
Checked(op, a, b, lo, hi) ==
    IF op = "pow" /\ b.s < 0
    THEN IF a.s = 0 THEN <<FALSE, a>> ELSE <<TRUE, Reciprocal(a, Abs(b))>>
    ELSE LET x == Exact(op, a, b) IN IF In(x, lo, hi) THEN <<TRUE, x>> ELSE <<FALSE, a>>

Comparisons(a, b) == LET c == Cmp(a, b) IN <<c = 0, c # 0, c < 0, c <= 0, c > 0, c >= 0>>

\* Interpretation of the value of a type of width w as two's complement, and back
Signed(a, w, isSigned) == IF isSigned THEN a ELSE Wrap(a, w, TRUE)
Unsign(a, w, isSigned) == IF isSigned THEN a ELSE Wrap(a, w, FALSE)
\* Cast where unsigned source (if f) and unsigned target (if t) hold two's complement
TwosCompl(a, f, fw, fs, t, tw, ts, lo, hi) ==
    LET v  == IF f THEN Signed(a, fw, fs) ELSE a
        l2 == IF t /\ ~ts THEN Neg(Pow2(tw - 1)) ELSE lo
        h2 == IF t /\ ~ts THEN Sub(Pow2(tw - 1), One) ELSE hi
    IN IF In(v, l2, h2) THEN <<TRUE, IF t THEN Unsign(v, tw, ts) ELSE v>> ELSE <<FALSE, Zero>>
TwosComplA(a, f, fw, fs, tw, ts) == Wrap(IF f THEN Signed(a, fw, fs) ELSE a, tw, ts)

Clamp(a, lo, hi) == IF Lt(a, lo) THEN lo ELSE IF Lt(hi, a) THEN hi ELSE a

RoundUp(a, b) == LET q == FDiv(a, b) IN IF Mul(q, b) = a THEN q ELSE Add(q, One)
RoundHalfDown(a, b) == LET q == FDiv(a, b) r == FMod(a, b) IN IF Le(Mul(Two, r), b) THEN q ELSE Add(q, One)
IsSqrt(r, a) == r.s >= 0 /\ Le(Mul(r, r), a) /\ Lt(a, LET x == Add(r, One) IN Mul(x, x))
MsbPos(a, valueBits) == IF a.s < 0 THEN valueBits ELSE BitLen(a) - 1
IsPow2(a) == a.s > 0 /\ a = Pow2(BitLen(a) - 1)
MaskBits(n, hi) == LET m == IF n <= 0 THEN Zero ELSE Sub(Pow2(n), One) IN IF Le(m, hi) THEN m ELSE hi
SignExtend(a, from, w) == IF from >= w THEN a ELSE Wrap(Wrap(a, from, TRUE), w, FALSE)

\* ---- multi-part integers: two's complement of width w
UBits(a, w) == Wrap(a, w, FALSE)
MultiPart(op, a, b, w, s) ==
    CASE op \in {"add", "sub", "mul"} -> Wrap(Exact(op, a, b), w, s)
      [] op = "quot" -> Wrap(Quot(a, b), w, s)
      [] op = "rem"  -> Wrap(Rem(a, b), w, s)
      [] op = "and"  -> Wrap(AndN(UBits(a, w), UBits(b, w)), w, s)
      [] op = "or"   -> Wrap(OrN(UBits(a, w), UBits(b, w)), w, s)
      [] op = "xor"  -> Wrap(XorN(UBits(a, w), UBits(b, w)), w, s)
      [] op = "not"  -> Wrap(Sub(Neg(a), One), w, s)
      [] op = "neg"  -> Wrap(Neg(a), w, s)
      [] op = "pos"  -> a
      [] op = "shl"  -> Wrap(Exact("shl", a, b), w, s)
      [] op = "shr"  -> Quot(a, Exact("shl", One, b))
=============================================================================
