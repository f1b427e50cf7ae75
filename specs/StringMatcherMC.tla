--------------------------- MODULE StringMatcherMC ---------------------------
(* The automaton: a state is the set of <<pattern, position>> reached by what has
   been read; a position is what remains of the pattern.  Refinement: what it
   accepts is what matches; two patterns overlap exactly when some state accepts
   both.                                                                       *)
EXTENDS StringMatcher
CONSTANTS Letters, MaxPat, NumPats, MaxStr
VARIABLES ps, str, st, hit
mcvars == <<ps, str, st, hit>>
Strings(S, n) == UNION {[1..k -> S] : k \in 0..n}
Drop(p, k) == SubSeq(p, k + 1, Len(p))
RECURSIVE Closure(_)
\* positions reachable without reading
Closure(S) == LET T == S \cup {<<x[1], x[2] + 1>> : x \in {y \in S : y[2] < Len(ps[y[1]]) /\ ps[y[1]][y[2] + 1] = Star}}
              IN IF T = S THEN S ELSE Closure(T)
Read(S, c) == {<<x[1], x[2] + 1>> : x \in {y \in S : y[2] < Len(ps[y[1]]) /\ ps[y[1]][y[2] + 1] = c}}
              \cup {y \in S : y[2] < Len(ps[y[1]]) /\ ps[y[1]][y[2] + 1] = Star}
Accepting == {i \in DOMAIN ps : <<i, Len(ps[i])>> \in st}
MCInit == /\ ps \in [1..NumPats -> Strings(Letters \cup {Star}, MaxPat)]
          /\ str = <<>> /\ st = Closure({<<i, 0>> : i \in DOMAIN ps}) /\ hit = (Cardinality({i \in DOMAIN ps : Matches(ps[i], <<>>)}) > 1)
MCNext == \E c \in Letters :
              /\ Len(str) < MaxStr
              /\ str' = Append(str, c) /\ st' = Closure(Read(st, c)) /\ ps' = ps
              /\ hit' = (hit \/ Cardinality({i \in DOMAIN ps : <<i, Len(ps[i])>> \in st'}) > 1)
MCSpec == MCInit /\ [][MCNext]_mcvars
Decides == Accepting = {i \in DOMAIN ps : Matches(ps[i], str)}
SoundAmbiguity == hit => Ambiguous(ps)
\* a witness of an overlap need not be longer than the two patterns together
RECURSIVE Witness(_)
Witness(n) == \E s \in [1..n -> Letters] : \E i, j \in DOMAIN ps : i < j /\ Matches(ps[i], s) /\ Matches(ps[j], s)
CompleteAmbiguity == (str = <<>> /\ Ambiguous(ps)) => \E n \in 0..(2 * MaxPat) : Witness(n)
EmitNext == FALSE /\ UNCHANGED mcvars
GenSpec == MCInit /\ [][EmitNext]_mcvars
EmitInv == PrintT("SCRIPT " \o ToJson(ps))
=============================================================================
