---------------------------- MODULE StringMatcher ----------------------------
(* Wildcard patterns (42 is the wildcard), the language of a pattern, and what a
   matcher made from a list of patterns reports.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Star == 42
RECURSIVE Matches(_, _)
Matches(p, s) ==
    IF p = <<>> THEN s = <<>>
    ELSE IF Head(p) = Star THEN Matches(Tail(p), s) \/ (s # <<>> /\ Matches(p, Tail(s)))
    ELSE s # <<>> /\ Head(p) = Head(s) /\ Matches(Tail(p), Tail(s))
\* Is there a string that matches both?
RECURSIVE Overlap(_, _)
Overlap(p, q) ==
    IF p = <<>> /\ q = <<>> THEN TRUE
    ELSE \/ p # <<>> /\ Head(p) = Star /\ (Overlap(Tail(p), q) \/ (q # <<>> /\ Overlap(p, Tail(q))))
         \/ q # <<>> /\ Head(q) = Star /\ (Overlap(p, Tail(q)) \/ (p # <<>> /\ Overlap(Tail(p), q)))
         \/ p # <<>> /\ q # <<>> /\ Head(p) # Star /\ Head(p) = Head(q) /\ Overlap(Tail(p), Tail(q))
Ambiguous(ps) == \E i, j \in DOMAIN ps : i < j /\ Overlap(ps[i], ps[j])
\* Index of the first pattern that the string matches; 0 if none
First(ps, s) == IF \E i \in DOMAIN ps : Matches(ps[i], s)
                THEN CHOOSE i \in DOMAIN ps : Matches(ps[i], s) /\ \A j \in 1..(i - 1) : ~Matches(ps[j], s)
                ELSE 0
=============================================================================
