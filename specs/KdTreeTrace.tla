---------------------------- MODULE KdTreeTrace ----------------------------
EXTENDS KdTree, TraceBase
TraceInit == l = 1 /\ pts = <<>>
TraceNext ==
    \/ IsEvent("reset") /\ pts' = Ev.pts
    \/ IsEvent("sort") /\ Match("permutation", IsPermutation(pts, Ev.pts), TRUE) /\ pts' = Ev.pts
    \/ IsEvent("find") /\ Match("closest point", Right(Ev.q, Ev.md, Ev.ok, Ev.p, Ev.sq), TRUE) /\ UNCHANGED pts
TraceSpec == TraceInit /\ [][TraceNext]_<<pts, l>>
=============================================================================
