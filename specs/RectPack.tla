------------------------------ MODULE RectPack ------------------------------
(* What a rectangle packer must deliver.  rects is the sequence of the sizes
   <<w, h>> added since the last reset, s the spacing between rectangles, m the
   margin at the sides of bins.  A packing result is ok or not; when it is ok,
   places gives <<bin, x, y>> for each rectangle, with bins numbered from zero,
   and used gives the utilized size of each bin.  need remembers how many bins
   it took to pack the present rectangles into bins of a particular size.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES rects, s, m, need
vars == <<rects, s, m, need>>

Before(a, wa, b) == a <= b /\ b - a >= wa /\ b - a - wa >= s
Apart(a, wa, b, wb) == Before(a, wa, b) \/ Before(b, wb, a)
Placed(bw, bh, maxb, places) ==
    /\ Len(places) = Len(rects)
    /\ \A i \in DOMAIN rects : LET p == places[i] r == rects[i] IN
          /\ p[1] >= 0 /\ p[1] < maxb
          /\ p[2] >= m /\ p[3] >= m /\ bw - p[2] - m >= r[1] /\ bh - p[3] - m >= r[2]
    /\ \A i, j \in DOMAIN rects : i < j /\ places[i][1] = places[j][1] =>
          \/ Apart(places[i][2], rects[i][1], places[j][2], rects[j][1])
          \/ Apart(places[i][3], rects[i][2], places[j][3], rects[j][2])

Max(S) == CHOOSE x \in S : \A y \in S : y <= x
In(places, b) == {i \in DOMAIN places : places[i][1] = b}
Utilized(places, used) ==
    /\ \A i \in DOMAIN places : places[i][1] < Len(used)
    /\ \A b \in DOMAIN used :
          LET I == In(places, b - 1) IN
          /\ I # {}         \* no bin is taken into use for nothing
          /\ used[b] = <<Max({places[i][2] + rects[i][1] : i \in I}) + m, Max({places[i][3] + rects[i][2] : i \in I}) + m>>

\* When packing has to succeed: each rectangle fits in a bin, and there is a bin for each, or
\* one bin is high enough to put all of them below each other with plenty of space to spare
FitsAlone(bw, bh) == 2 * m <= bw /\ 2 * m <= bh /\ \A i \in DOMAIN rects : rects[i][1] <= bw - 2 * m /\ rects[i][2] <= bh - 2 * m
RECURSIVE Left(_, _)
Left(space, n) == IF n = 0 \/ space < 0 THEN space ELSE IF space < rects[n][2] THEN -1 ELSE Left(space - rects[n][2] - s, n - 1)
MustFit(bw, bh, maxb) == FitsAlone(bw, bh) /\ (maxb >= Len(rects) \/ (maxb >= 1 /\ Left(bh - 2 * m - bw, Len(rects)) >= 0))

Reset(sp, ma) == rects' = <<>> /\ s' = sp /\ m' = ma /\ need' = <<>>
Clear == Reset(s, m)
Add(w, h) == rects' = Append(rects, <<w, h>>) /\ need' = <<>> /\ UNCHANGED <<s, m>>
Known(bw, bh) == <<bw, bh>> \in DOMAIN need
\* Whether a result is right
Right(bw, bh, maxb, ok, places, used) ==
    IF ok THEN /\ Placed(bw, bh, maxb, places) /\ Utilized(places, used)
               /\ Known(bw, bh) => Len(used) = need[<<bw, bh>>]
    ELSE /\ ~MustFit(bw, bh, maxb)
         /\ Known(bw, bh) => maxb < need[<<bw, bh>>]
Pack(bw, bh, ok, used) ==
    /\ need' = IF ok THEN (<<bw, bh>> :> Len(used)) @@ need ELSE need
    /\ UNCHANGED <<rects, s, m>>
=============================================================================
