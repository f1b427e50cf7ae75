------------------------------ MODULE PixelBox ------------------------------
(* Exact geometry of pixel positions, sizes and boxes.  Coordinates are numbers
   of any size (module BigInt).  A box is <<x, y, w, h>>; it covers the pixels
   with x <= px < x + w and y <= py < y + h.  One box contains another when the
   sides of the other lie within its own, which for boxes with pixels is the
   inclusion of the sets of pixels.                                          *)
EXTENDS BigInt

MinC(a, b) == IF Lt(b, a) THEN b ELSE a
MaxC(a, b) == IF Lt(a, b) THEN b ELSE a
NegB(a) == Lt(a, Zero)

Fits(a, lo, hi) == In(a, lo, hi)
ValidBox(b, lo, hi) == ~NegB(b[3]) /\ ~NegB(b[4]) /\ Fits(Add(b[1], b[3]), lo, hi) /\ Fits(Add(b[2], b[4]), lo, hi)
EmptyBox(b) == b[3] = Zero \/ b[4] = Zero

Within(x, w, ox, ow) == Le(x, ox) /\ Le(Add(ox, ow), Add(x, w))
Contains(a, b) == Within(a[1], a[3], b[1], b[3]) /\ Within(a[2], a[4], b[2], b[4])

Start(x, ox) == MaxC(x, ox)
End(x, w, ox, ow) == MinC(Add(x, w), Add(ox, ow))
Overlap(x, w, ox, ow) == Lt(Start(x, ox), End(x, w, ox, ow))
Intersects(a, b) == Overlap(a[1], a[3], b[1], b[3]) /\ Overlap(a[2], a[4], b[2], b[4])
Extent(x, w, ox, ow) == Sub(End(x, w, ox, ow), Start(x, ox))
\* Box b clipped to a
Clip(a, b) == IF Intersects(a, b)
              THEN <<TRUE, <<Start(a[1], b[1]), Start(a[2], b[2]), Extent(a[1], a[3], b[1], b[3]), Extent(a[2], a[4], b[2], b[4])>>>>
              ELSE <<FALSE, b>>

\* Lexicographical comparison: -1, 0, 1
RECURSIVE Lex(_, _)
Lex(a, b) == IF a = <<>> THEN 0 ELSE IF Cmp(a[1], b[1]) # 0 THEN Cmp(a[1], b[1]) ELSE Lex(Tail(a), Tail(b))
Comparisons(a, b) == LET c == Lex(a, b) IN <<c = 0, c # 0, c < 0, c <= 0, c > 0, c >= 0>>

\* Component-wise
Zip(f(_, _), a, b) == [i \in DOMAIN a |-> f(a[i], b[i])]
AllFit(a, lo, hi) == \A i \in DOMAIN a : Fits(a[i], lo, hi)
\* Recorded as <<ok, value>>; not called where the result does not fit
Arith(op, a, b, lo, hi) ==
    LET r == CASE op = "add" -> Zip(Add, a, b) [] op = "sub" -> Zip(Sub, a, b) [] op = "mul" -> [i \in DOMAIN a |-> Mul(a[i], b[i])]
             [] op = "div" -> [i \in DOMAIN a |-> Quot(a[i], b[i])]
             [] op = "min" -> Zip(MinC, a, b) [] op = "max" -> Zip(MaxC, a, b)
             [] op = "splice" -> <<a[1], b[2]>> [] op = "proj_x" -> <<a[1], Zero>> [] op = "proj_y" -> <<Zero, a[2]>>
             [] op = "with_1" -> <<b[1], a[2]>> [] op = "with_2" -> <<a[1], b[2]>>
    IN IF AllFit(r, lo, hi) THEN <<TRUE, r>> ELSE <<FALSE, <<>>>>
=============================================================================
