----------------------------- MODULE PixelBoxMC -----------------------------
(* The definitions of PixelBox say what they should about sets of pixels; and
   the way boxes can be compared without leaving the integer type (distances
   tested for being representable first) gives the same answers at the limits
   of a small integer type.                                                  *)
EXTENDS PixelBox, FiniteSets
CONSTANTS High
Low == -High - 1

VARIABLES a, b      \* <<x, w>> each: the axes are independent
Axis == (Low..High) \X (0..High)
Init == a \in Axis /\ b \in Axis
Next == UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b>>

Cov(v) == {p \in Low..(2 * High) : v[1] <= p /\ p < v[1] + v[2]}
B(v) == <<Big(v[1]), Zero, Big(v[2]), One>>
Sets ==
    /\ Intersects(B(a), B(b)) <=> Cov(a) \cap Cov(b) # {}
    /\ (Cov(b) # {} => (Contains(B(a), B(b)) <=> Cov(b) \subseteq Cov(a)))
    /\ (Cov(b) = {} /\ Contains(B(a), B(b))) => a[1] <= b[1] /\ b[1] <= a[1] + a[2]
    /\ LET c == Clip(B(a), B(b)) IN c[1] <=> Intersects(B(a), B(b))
    /\ \E c \in Axis : LET k == Clip(B(a), B(b)) IN
          IF k[1] THEN k[2] = B(c) /\ Cov(c) = Cov(a) \cap Cov(b) ELSE k[2] = B(b)

\* The comparisons as made within the integer type Low..High
Repr(n) == n \in Low..High
DistLess(x, y, lim) == IF Repr(y - x) THEN y - x < lim ELSE FALSE
DistAtMost(x, y, lim) == IF Repr(y - x) THEN y - x <= lim ELSE FALSE
Algorithms ==
    /\ Intersects(B(a), B(b)) <=> IF a[1] < b[1] THEN DistLess(a[1], b[1], a[2]) /\ b[2] > 0 ELSE DistLess(b[1], a[1], b[2]) /\ a[2] > 0
    /\ Contains(B(a), B(b)) <=> (b[1] >= a[1] /\ b[2] <= a[2] /\ Repr(a[2] - b[2]) /\ DistAtMost(a[1], b[1], a[2] - b[2]))
=============================================================================
