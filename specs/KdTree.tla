------------------------------- MODULE KdTree -------------------------------
(* Closest point search.  pts is the present sequence of points, each a sequence
   of integer coordinates.  Sorting permutes it.  A search for the point closest
   to q, optionally among those closer than md, finds something exactly when
   there is such a point, and then one at the smallest distance.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLE pts

RECURSIVE SqDistN(_, _, _)
SqDistN(p, q, n) == IF n = 0 THEN 0 ELSE (p[n] - q[n]) * (p[n] - q[n]) + SqDistN(p, q, n - 1)
SqDist(p, q) == SqDistN(p, q, Len(q))
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

Occurrences(s, p) == Cardinality({i \in DOMAIN s : s[i] = p})
IsPermutation(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Occurrences(a, a[i]) = Occurrences(b, a[i])

\* md: <<>> or <<max distance>>
Distances(q) == {SqDist(pts[i], q) : i \in DOMAIN pts}
Eligible(q, md) == {d \in Distances(q) : md = <<>> \/ d < md[1] * md[1]}
Found(q, md) == Eligible(q, md) # {}
Right(q, md, ok, p, sq) ==
    IF Found(q, md) THEN /\ ok /\ sq = MinOf(Eligible(q, md))
                         /\ SqDist(p, q) = sq /\ \E i \in DOMAIN pts : pts[i] = p
    ELSE ~ok
=============================================================================
