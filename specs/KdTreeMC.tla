------------------------------ MODULE KdTreeMC ------------------------------
(* The design: the sequence is a tree with the middle element at the root, which
   splits along one dimension, the next level along the next.  The far side of a
   split is searched afterwards, and only when the splitting plane is closer than
   the closest point found so far.  Checked for every arrangement that is a tree,
   every query and every limit of the distance.                               *)
EXTENDS KdTree, Json
CONSTANTS K, Side, MaxPts

MCInit == pts = <<>>
MCNext == Len(pts) < MaxPts /\ \E p \in [1..K -> 0..Side] : pts' = Append(pts, p)
MCSpec == MCInit /\ [][MCNext]_pts

Mid(a, b) == a + (b - a - 1) \div 2          \* of the positions a .. b - 1
NextDim(d) == (d % K) + 1
RECURSIVE IsTree(_, _, _)
IsTree(a, b, d) == a >= b \/ LET c == Mid(a, b) IN
    /\ \A i \in a..(c - 1) : pts[i][d] <= pts[c][d]
    /\ \A i \in (c + 1)..(b - 1) : pts[c][d] <= pts[i][d]
    /\ IsTree(a, c, NextDim(d)) /\ IsTree(c + 1, b, NextDim(d))

\* r: <<index (0: none), square distance (-1: no limit yet)>>
RECURSIVE Search(_, _, _, _, _)
Search(q, a, b, d, r) ==
    IF a >= b THEN r
    ELSE LET c == Mid(a, b)  sq == SqDist(pts[c], q)
             r1 == IF r[2] = -1 \/ sq < r[2] THEN <<c, sq>> ELSE r
             below == q[d] <= pts[c][d]
             r2 == IF below THEN Search(q, a, c, NextDim(d), r1) ELSE Search(q, c + 1, b, NextDim(d), r1)
             far == (pts[c][d] - q[d]) * (pts[c][d] - q[d])
         IN IF far >= r2[2] THEN r2
            ELSE IF below THEN Search(q, c + 1, b, NextDim(d), r2) ELSE Search(q, a, c, NextDim(d), r2)
Queries == [1..K -> -1..(Side + 1)]
Limits == {<<>>} \cup {<<m>> : m \in 0..(2 * Side)}
DesignRight == IsTree(1, Len(pts) + 1, 1) => \A q \in Queries, md \in Limits :
    LET r == Search(q, 1, Len(pts) + 1, 1, <<0, IF md = <<>> THEN -1 ELSE md[1] * md[1]>>) IN
    Right(q, md, r[1] # 0, IF r[1] = 0 THEN <<>> ELSE pts[r[1]], r[2])

\* One script per multiset of points
RECURSIVE Less(_, _)
Less(p, q) == IF p = <<>> THEN FALSE ELSE p[1] < q[1] \/ (p[1] = q[1] /\ Less(Tail(p), Tail(q)))
GenNext == Len(pts) < MaxPts /\ \E p \in [1..K -> 0..Side] : (IF pts = <<>> THEN TRUE ELSE ~Less(p, pts[Len(pts)])) /\ pts' = Append(pts, p)
GenSpec == MCInit /\ [][GenNext]_pts
EmitInv == PrintT("SCRIPT " \o ToJson(<<K, Side, pts>>))
=============================================================================
