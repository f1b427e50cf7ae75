----------------------------- MODULE RectPackMC -----------------------------
(* The design: first fit, in order of descending height, into a tree of free
   areas.  An area taken into use is cut into the rectangle, an area to the right
   and an area below.  Checked: the results are right in the sense of RectPack,
   and the number of bins allowed decides success and nothing else.           *)
EXTENDS RectPack, Json
CONSTANTS MaxRects, MaxSide, MaxBin, MaxSpace

VARIABLES bw, bh
mvars == <<vars, bw, bh>>

Sizes == {<<w, h>> : w, h \in 0..MaxSide}
MCInit == /\ rects = <<>> /\ s \in 0..MaxSpace /\ m \in 0..MaxSpace /\ need = <<>> /\ bw \in 0..MaxBin /\ bh \in 0..MaxBin + 3
Geq(a, b) == a[2] > b[2] \/ (a[2] = b[2] /\ a[1] >= b[1])
\* In the order in which they are going to be placed: sorting is stable, so nothing is lost
MCNext == /\ Len(rects) < MaxRects
          /\ \E z \in Sizes : (IF rects = <<>> THEN TRUE ELSE Geq(rects[Len(rects)], z)) /\ Add(z[1], z[2])
          /\ UNCHANGED <<bw, bh>>
MCSpec == MCInit /\ [][MCNext]_mvars

\* The design
Node(x, y, w, h) == [occ |-> FALSE, x |-> x, y |-> y, w |-> w, h |-> h, r |-> 0, d |-> 0]
RECURSIVE Find(_, _, _, _)
Find(nodes, i, w, h) ==
    IF i = 0 THEN 0
    ELSE IF ~nodes[i].occ THEN (IF w <= nodes[i].w /\ h <= nodes[i].h THEN i ELSE 0)
    ELSE LET f == Find(nodes, nodes[i].r, w, h) IN IF f # 0 THEN f ELSE Find(nodes, nodes[i].d, w, h)
Split(nodes, i, w, h) ==
    LET n == nodes[i] w1 == n.w - w h2 == n.h - h
        low == h2 >= w1
        h1 == IF low THEN h ELSE n.h
        w2 == IF low THEN n.w ELSE w
        right == w1 >= s  down == h2 >= s
        a == IF right THEN Append(nodes, Node(n.x + w + s, n.y, w1 - s, h1)) ELSE nodes
        b == IF down THEN Append(a, Node(n.x, n.y + h + s, w2, h2 - s)) ELSE a
    IN [b EXCEPT ![i] = [@ EXCEPT !.occ = TRUE, !.r = IF right THEN Len(nodes) + 1 ELSE 0, !.d = IF down THEN Len(b) ELSE 0]]
\* bins: sequence of node trees (the root first)
RECURSIVE Insert(_, _, _, _)
Insert(bins, b, maxb, z) ==         \* <<bins, bin, x, y>>, or <<>> when it fails
    IF b > Len(bins) THEN
        IF b > maxb \/ z[1] > bw - 2 * m \/ z[2] > bh - 2 * m THEN <<>>
        ELSE Insert(Append(bins, <<Node(m, m, bw - 2 * m, bh - 2 * m)>>), b, maxb, z)
    ELSE LET i == Find(bins[b], 1, z[1], z[2]) IN
         IF i = 0 THEN Insert(bins, b + 1, maxb, z)
         ELSE <<[bins EXCEPT ![b] = Split(@, i, z[1], z[2])], b - 1, bins[b][i].x, bins[b][i].y>>
RECURSIVE Run(_, _, _, _)
Run(bins, places, maxb, i) ==
    IF i > Len(rects) THEN <<TRUE, places, bins>>
    ELSE LET r == Insert(bins, 1, maxb, rects[i]) IN
         IF r = <<>> THEN <<FALSE, <<>>, <<>>>> ELSE Run(r[1], Append(places, <<r[2], r[3], r[4]>>), maxb, i + 1)
Design(maxb) == IF 2 * m > bw \/ 2 * m > bh THEN <<FALSE, <<>>, <<>>>> ELSE Run(<<>>, <<>>, maxb, 1)
Used(r) == [b \in DOMAIN r[3] |-> <<Max({r[2][i][2] + rects[i][1] : i \in In(r[2], b - 1)}) + m, Max({r[2][i][3] + rects[i][2] : i \in In(r[2], b - 1)}) + m>>]

DesignRight ==
    LET all == Design(Len(rects)) IN
    \A n \in 0..Len(rects) :
      LET r == Design(n) IN
      /\ Right(bw, bh, n, r[1], r[2], IF r[1] THEN Used(r) ELSE <<>>)
      /\ r[1] <=> (all[1] /\ n >= Len(all[3]))
      /\ r[1] => r = all
EmitInv == PrintT("SCRIPT " \o ToJson(<<s, m, bw, bh, rects>>))
=============================================================================
