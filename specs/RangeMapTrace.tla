--------------------------- MODULE RangeMapTrace ---------------------------
(* The ranges listed by the code (rs) must be well formed and mean `pt`.    *)
EXTENDS RangeMap, TraceBase
tvars == <<vars, hist, l>>
TraceInit == Init /\ hist = <<>> /\ l = 1
Observed == /\ Match("ranges are nonempty, disjoint and ascending", WellFormed(Ev.rs), TRUE)
            /\ Match("value of each key", Point(Ev.rs), pt')
            /\ Match("keys outside", Ev.out, 0)
            /\ rs' = Ev.rs
TraceNext ==
    /\ UNCHANGED hist
    /\ \/ IsEvent("reset") /\ pt' = [k \in KeySet |-> Absent] /\ rs' = <<>>
       \/ IsEvent("update") /\ UpdatePt(Ev.a, Ev.b, Ev.f, Ev.c) /\ Observed
       \/ IsEvent("defrag") /\ UNCHANGED pt /\ Observed /\ Match("merged", NoMergeable(Ev.rs), TRUE)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
