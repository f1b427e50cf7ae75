--------------------------- MODULE RectPackTrace ---------------------------
EXTENDS RectPack, TraceBase
B == INSTANCE BigInt
TraceInit == l = 1 /\ rects = <<>> /\ s = 0 /\ m = 0 /\ need = <<>>
RECURSIVE Area(_)
Area(n) == IF n = 0 THEN B!Zero
           ELSE B!Add(B!Mul(B!Add(B!Big(rects[n][1]), B!Big(s)), B!Add(B!Big(rects[n][2]), B!Big(s))), Area(n - 1))
Square(x) == B!Mul(x, x)
Root(r, a) == B!Le(Square(r), a) /\ B!Lt(a, Square(B!Add(r, B!One)))
Widest == IF rects = <<>> THEN 0 ELSE Max({rects[i][1] : i \in DOMAIN rects})
\* Wide enough for each rectangle, or all there is; and the width of a square of the same area
\* including spacing, unless that is not representable
SuggestRight(r, max) ==
    LET a == Area(Len(rects)) k == B!Big(max) IN
    \/ rects = <<>>      \* nothing is suggested for nothing
    \/ /\ r = max
       /\ LET x == B!Add(B!Sub(k, B!Add(B!Big(m), B!Big(m))), B!Big(s)) IN
          \/ B!Lt(Square(k), a)
          \/ B!Le(B!Sub(x, B!Big(s)), B!Big(Widest)) \/ B!Le(x, B!Zero) \/ B!Le(Square(x), a)
    \/ /\ r - m >= 0 /\ r - m - m >= Widest
       /\ \/ B!Lt(Square(k), a)
          \/ LET w == B!Add(B!Big(r - m - m), B!Big(s)) IN
             IF r - m - m > Widest THEN Root(w, a) ELSE B!Lt(a, Square(B!Add(w, B!One)))
TraceNext ==
    \/ IsEvent("reset") /\ Reset(Ev.s, Ev.m)
    \/ IsEvent("clear") /\ Clear
    \/ IsEvent("add") /\ Add(Ev.w, Ev.h)
    \/ IsEvent("pack") /\ Match("result", Right(Ev.bw, Ev.bh, Ev.n, Ev.ok, Ev.places, Ev.used), TRUE) /\ Pack(Ev.bw, Ev.bh, Ev.ok, Ev.used)
    \/ IsEvent("suggest") /\ Match("suggested width", SuggestRight(Ev.r, Ev.max), TRUE) /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
