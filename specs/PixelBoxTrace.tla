--------------------------- MODULE PixelBoxTrace ---------------------------
EXTENDS PixelBox, TraceBase
TraceInit == l = 1
TraceNext ==
    \/ IsEvent("reset")
    \/ IsEvent("box") /\ LET lo == Neg(Pow2(Ev.w - 1)) hi == Sub(Pow2(Ev.w - 1), One) IN
         /\ Match("valid", Ev.valid, ValidBox(Ev.a, lo, hi))
         /\ Match("empty", Ev.empty, EmptyBox(Ev.a))
         /\ Match("intersects", Ev.isect, Intersects(Ev.a, Ev.b))
         /\ Match("contains", Ev.cont, <<Contains(Ev.a, Ev.b), Contains(Ev.b, Ev.a)>>)
         /\ Match("contains pixel", Ev.pix, Contains(Ev.a, <<Ev.b[1], Ev.b[2], One, One>>))
         /\ Match("clipped", <<Ev.ok, Ev.clip>>, Clip(Ev.a, Ev.b))
         /\ Match("spliced", Ev.splice, <<Ev.a[1], Ev.b[2], Ev.a[3], Ev.b[4]>>)
         /\ Match("comparison", Ev.cmp, Comparisons(Ev.a, Ev.b))
    \/ IsEvent("can") /\ LET lo == Neg(Pow2(Ev.w - 1)) hi == Sub(Pow2(Ev.w - 1), One) IN
         /\ Match("can add", Ev.add, AllFit(Zip(Add, Ev.a, Ev.b), lo, hi))
         /\ Match("can subtract", Ev.sub, AllFit(Zip(Sub, Ev.a, Ev.b), lo, hi))
    \* Positions and sizes
    \/ IsEvent("arith") /\ Match("result", <<TRUE, Ev.r>>, Arith(Ev.op, Ev.a, Ev.b, Neg(Pow2(Ev.w - 1)), Sub(Pow2(Ev.w - 1), One)))
    \/ IsEvent("compare") /\ Match("comparison", Ev.cmp, Comparisons(Ev.a, Ev.b))
    \/ IsEvent("size") /\ Match("valid", Ev.valid, ~NegB(Ev.a[1]) /\ ~NegB(Ev.a[2]))
         /\ Match("zero", Ev.zero, Ev.a = <<Zero, Zero>>) /\ Match("empty", Ev.empty, Ev.a[1] = Zero \/ Ev.a[2] = Zero)
         /\ Match("contains", Ev.cont, <<Le(Ev.b[1], Ev.a[1]) /\ Le(Ev.b[2], Ev.a[2]), Le(Ev.a[1], Ev.b[1]) /\ Le(Ev.a[2], Ev.b[2])>>)
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
