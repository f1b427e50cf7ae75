----------------------------- MODULE WordWrap -----------------------------
(* Word wrapping.

   A text is a sequence of words, each with the size of the space before it and
   its own size, and a trailing space.  Lines have sizes: geometry object g says
   the size of a line and the geometry object of the next line.

   A wrapping is a sequence of breakpoints, each the index of the first word of
   a line other than the first one.  The space before the first word of a line
   is not on the line, except at the very beginning of the text.  The trailing
   space is on the last line.  No line is wider than its size, unless it holds
   only one word.                                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* Words are <<space, size>>, geometry objects are <<line size, next>> (indexes from 0)
Size(ws, k) == ws[k][2]
Space(ws, k) == ws[k][1]

\* Width of the line that holds words i..j
RECURSIVE Width(_, _, _, _)
Width(ws, trail, i, j) ==
    (IF j = i THEN (IF i = 1 THEN Space(ws, 1) ELSE 0) + Size(ws, i)
     ELSE Width(ws, 0, i, j - 1) + Space(ws, j) + Size(ws, j))
    + (IF j = Len(ws) THEN trail ELSE 0)

Fits(ws, trail, i, j, size) == i = j \/ Width(ws, trail, i, j) <= size

LineSize(geom, g) == geom[g + 1][1]
NextGeom(geom, g) == geom[g + 1][2]

RECURSIVE GeomOf(_, _, _)
GeomOf(geom, g, k) == IF k = 1 THEN g ELSE GeomOf(geom, NextGeom(geom, g), k - 1)

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

\* Is a sequence of breakpoints (0-based word indexes) a wrapping of the text?
IsWrapping(ws, trail, geom, g0, bp) ==
    LET n == Len(bp) + 1
        First(k) == IF k = 1 THEN 1 ELSE bp[k - 1] + 1
        Last(k) == IF k = n THEN Len(ws) ELSE bp[k]
    IN /\ \A k \in 1..Len(bp) : bp[k] >= 1 /\ bp[k] < Len(ws)
       /\ \A k \in 2..Len(bp) : bp[k - 1] < bp[k]
       /\ (Len(ws) = 0 \/ \A k \in 1..n : Fits(ws, trail, First(k), Last(k), LineSize(geom, GeomOf(geom, g0, k))))

\* As many words as possible on every line
RECURSIVE GreedyFrom(_, _, _, _, _)
GreedyFrom(ws, trail, geom, g, i) ==
    LET j == MaxOf({j \in i..Len(ws) : \A k \in i..j : Fits(ws, trail, i, k, LineSize(geom, g))}) IN
    IF j = Len(ws) THEN <<>> ELSE <<j>> \o GreedyFrom(ws, trail, geom, NextGeom(geom, g), j + 1)
Greedy(ws, trail, geom, g) == IF ws = <<>> THEN <<>> ELSE GreedyFrom(ws, trail, geom, g, 1)

\* The sum of the squares of the gaps at the ends of the lines, except the last one
Gap(ws, i, j, size) == LET w == Width(ws, 0, i, j) IN IF w >= size THEN 0 ELSE size - w
RECURSIVE BadnessFrom(_, _, _, _, _)
BadnessFrom(ws, geom, g, bp, i) ==
    IF bp = <<>> THEN 0
    ELSE Gap(ws, i, Head(bp), LineSize(geom, g)) * Gap(ws, i, Head(bp), LineSize(geom, g))
         + BadnessFrom(ws, geom, NextGeom(geom, g), Tail(bp), Head(bp) + 1)
Badness(ws, geom, g, bp) == BadnessFrom(ws, geom, g, bp, 1)

\* The least badness of any wrapping: best[i][g] is the least for words i.. when
\* their first line is described by g.
RECURSIVE Best(_, _, _, _, _)
Best(ws, trail, geom, i, after) ==
    LET Of(g) == MinOf({ IF j = Len(ws) THEN 0
                         ELSE Gap(ws, i, j, LineSize(geom, g)) * Gap(ws, i, j, LineSize(geom, g))
                              + after[j + 1][NextGeom(geom, g)]
                         : j \in {j \in i..Len(ws) : Fits(ws, trail, i, j, LineSize(geom, g))} })
        now == TLCEval([k \in i..Len(ws) |-> IF k > i THEN after[k] ELSE TLCEval([g \in 0..Len(geom) - 1 |-> Of(g)])])
    IN IF i = 1 THEN now[1] ELSE Best(ws, trail, geom, i - 1, now)
LeastBadness(ws, trail, geom, g) ==
    IF Len(ws) = 0 THEN 0 ELSE Best(ws, trail, geom, Len(ws), <<>>)[g]
=============================================================================
