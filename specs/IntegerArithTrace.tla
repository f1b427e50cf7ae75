------------------------- MODULE IntegerArithTrace -------------------------
EXTENDS IntegerArith, TraceBase
TraceInit == l = 1
Pair(ok, r) == <<ok, r>>
TraceNext ==
    \/ IsEvent("reset")
    \* try_int_X, can_int_X and int_X agree (recorded as ok), value afterwards
    \/ IsEvent("checked") /\ Match("result", Pair(Ev.ok, Ev.r), Checked(Ev.op, Ev.a, Ev.b, Ev.lo, Ev.hi))
    \/ IsEvent("compare") /\ Match("comparisons", Ev.r, Comparisons(Ev.a, Ev.b))
    \/ IsEvent("cast") /\ Match("cast", Pair(Ev.ok, Ev.r), IF In(Ev.a, Ev.lo, Ev.hi) THEN <<TRUE, Ev.a>> ELSE <<FALSE, Zero>>)
         /\ Match("modular cast", Ev.m, Wrap(Ev.a, Ev.tw, Ev.ts))
         /\ Match("clamped", Ev.c, Clamp(Ev.a, Ev.cl, Ev.ch)) /\ Match("clamped to type", Ev.ct, Clamp(Ev.a, Ev.lo, Ev.hi))
    \/ IsEvent("twos") /\ LET res == TwosCompl(Ev.a, Ev.f, Ev.fw, Ev.fs, Ev.t, Ev.tw, Ev.ts, Ev.lo, Ev.hi) IN
            Match("cast", Pair(Ev.ok, Ev.r), res)
         \* into an unsigned type that does not hold two's complement, only values it can represent
         /\ ((Ev.ok \/ Ev.t \/ ~Ev.f) => Match("modular cast", Ev.m, TwosComplA(Ev.a, Ev.f, Ev.fw, Ev.fs, Ev.tw, Ev.ts)))
    \/ IsEvent("rounddiv") /\ Match("up", Ev.up, RoundUp(Ev.a, Ev.b))
    \/ IsEvent("roundhalf") /\ Match("half down", Ev.hd, RoundHalfDown(Ev.a, Ev.b))
    \/ IsEvent("pmod") /\ Match("periodic modulus", Ev.r, FMod(Ev.a, Ev.b))
    \/ IsEvent("sqrt") /\ Match("square root", IsSqrt(Ev.r, Ev.a), TRUE)
    \/ IsEvent("bits") /\ Match("msb", Ev.msb, MsbPos(Ev.a, Ev.vb)) /\ Match("power of two", Ev.p2, IsPow2(Ev.a))
         /\ Match("odd, negative, zero, min, max", Ev.q, <<IsOdd(Ev.a), Ev.a.s < 0, Ev.a.s = 0, Ev.a = Ev.lo, Ev.a = Ev.hi>>)
         /\ Match("digits", Ev.d, NumDigits(Ev.a, Ev.base))
    \/ IsEvent("type") /\ Match("range", <<Ev.lo, Ev.hi>>, IF Ev.s THEN <<Neg(Pow2(Ev.w - 1)), Sub(Pow2(Ev.w - 1), One)>> ELSE <<Zero, Sub(Pow2(Ev.w), One)>>)
         /\ Match("most digits", Ev.d, [i \in DOMAIN Ev.bases |-> LET x == NumDigits(Ev.hi, Ev.bases[i]) y == NumDigits(Ev.lo, Ev.bases[i]) IN IF x > y THEN x ELSE y])
    \/ IsEvent("mask") /\ Match("mask", Ev.r, MaskBits(Ev.n, Ev.hi))
    \/ IsEvent("extend") /\ Match("sign extension", Ev.r, SignExtend(Ev.a, Ev.from, Ev.w))
    \/ IsEvent("logic") /\ Match("shifted left", Ev.sl, Wrap(Exact("shl", Ev.a, Ev.b), Ev.w, FALSE))
    \/ IsEvent("logicr") /\ Match("shifted right", Ev.sr, Quot(Ev.a, Exact("shl", One, Ev.b)))
    \/ IsEvent("mp") /\ Match("result", Ev.r, MultiPart(Ev.op, Ev.a, Ev.b, Ev.w, Ev.s))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
