-------------------------- MODULE HandleOwnerTrace --------------------------
(* Recorded opening, closing, moving and destruction of file objects.        *)
EXTENDS HandleOwner, TraceBase
TraceInit == l = 1 /\ OInit
Now == /\ Match("objects that are open", Ev.open, [s \in S |-> held'[s] # 0])
       /\ Match("open files", Ev.n, Cardinality(live' \ Keep))
       /\ Match("open standard streams", Ev.std, [s \in Keep |-> s \in live'])
TraceNext ==
    \/ IsEvent("fresh") /\ held' = [s \in S |-> IF s \in Keep THEN s ELSE 0] /\ live' = Keep /\ gone' = {} /\ next' = Std + 1 /\ Now
    \/ IsEvent("give") /\ Give(Ev.s, Ev.d) /\ Now
    \/ IsEvent("enter") /\ Open(Ev.s) /\ Now
    \/ IsEvent("shut") /\ Shut(Ev.s) /\ Now
    \/ IsEvent("drop") /\ Drop(Ev.s) /\ Now
TraceSpec == TraceInit /\ [][TraceNext]_<<l, ovars>>
=============================================================================
