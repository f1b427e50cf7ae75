--------------------------- MODULE WordWrapTrace ---------------------------
EXTENDS WordWrap, TraceBase
TraceInit == l = 1
TraceNext ==
    \/ IsEvent("reset")
    \/ IsEvent("greedy") /\ Match("breakpoints", Ev.bp, Greedy(Ev.ws, Ev.trail, Ev.geom, Ev.g))
    \/ IsEvent("knuth")
         /\ Match("is a wrapping", IsWrapping(Ev.ws, Ev.trail, Ev.geom, Ev.g, Ev.brk), TRUE)
         /\ Match("least badness", Badness(Ev.ws, Ev.geom, Ev.g, Ev.brk), LeastBadness(Ev.ws, Ev.trail, Ev.geom, Ev.g))
         /\ Match("reported badness", Ev.badness, Badness(Ev.ws, Ev.geom, Ev.g, Ev.brk))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
