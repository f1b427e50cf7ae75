---------------------------- MODULE WordWrapMC ----------------------------
(* All short texts and geometries: the greedy wrapping is a wrapping, with as
   few lines as any where all lines have the same size, and the least badness is the least
   one of all wrappings; as well as scripts for the implementation.             *)
EXTENDS WordWrap, Json
CONSTANTS Spaces, Sizes, Lines, MaxWords, Trails
VARIABLES ws, trail, geom
vars == <<ws, trail, geom>>
Geoms == [1..1 -> Lines \X {0}] \cup [1..2 -> Lines \X {0, 1}]
Init == ws = <<>> /\ trail \in Trails /\ geom \in Geoms
Next == Len(ws) < MaxWords /\ \E s \in Spaces, n \in Sizes : ws' = Append(ws, <<s, n>>) /\ UNCHANGED <<trail, geom>>
Spec == Init /\ [][Next]_vars
All == {bp \in UNION {[1..k -> 1..Len(ws) - 1] : k \in 0..(IF Len(ws) > 0 THEN Len(ws) - 1 ELSE 0)} : IsWrapping(ws, trail, geom, 0, bp)}
GreedyIsWrapping == IsWrapping(ws, trail, geom, 0, Greedy(ws, trail, geom, 0))
GreedyShortest == Len(geom) = 1 => \A bp \in All : Len(Greedy(ws, trail, geom, 0)) <= Len(bp)
LeastIsLeast == LeastBadness(ws, trail, geom, 0) = MinOf({Badness(ws, geom, 0, bp) : bp \in All})
EmitInv == PrintT("SCRIPT " \o ToJson([ws |-> ws, trail |-> trail, geom |-> geom]))
=============================================================================
