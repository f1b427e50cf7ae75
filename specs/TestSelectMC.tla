---------------------------- MODULE TestSelectMC ----------------------------
(* The algorithm: read the filter character by character into two lists of     *)
(* patterns, go through the tests in order of definition, and put each that    *)
(* is included behind those that are not to come after it (a stable sort).     *)
EXTENDS TestSelect, Randomization
CONSTANTS Letters, MaxFilter, MaxName, NumTests, NumOrder, Sample
VARIABLES tests, filter, order, pos, word, inc, exc, sep, k, out
mcvars == <<tests, filter, order, pos, word, inc, exc, sep, k, out>>
Strings(S, n) == UNION {[1..k1 -> S] : k1 \in 0..n}
Names == Strings(Letters, MaxName) \ {<<>>}
Filters == { f \in Strings(Letters \cup {Star, Space, 45}, MaxFilter) : WellFormed(f) }
Pats == Strings(Letters \cup {Star}, 2)
Some(n, S) == IF Sample THEN RandomSubset(n, S) ELSE S
MCInit ==
    /\ filter \in Some(40, Filters)
    /\ order \in Some(6, [1..NumOrder -> Pats])
    /\ tests \in { t \in Some(6, [1..NumTests -> [name : Names, en : {TRUE}, c : BOOLEAN]]) : Unique(t) }
    /\ pos = 1 /\ word = <<>> /\ inc = <<>> /\ exc = <<>> /\ sep = FALSE /\ k = 0 /\ out = <<>>
EndWord ==
    IF word = <<>> THEN UNCHANGED <<inc, exc, sep>>
    ELSE IF word = Dash THEN sep' = TRUE /\ UNCHANGED <<inc, exc>>
    ELSE IF sep THEN exc' = Append(exc, word) /\ UNCHANGED <<inc, sep>>
    ELSE inc' = Append(inc, word) /\ UNCHANGED <<exc, sep>>
Read ==
    /\ pos <= Len(filter)
    /\ pos' = pos + 1
    /\ IF filter[pos] = Space THEN EndWord /\ word' = <<>> ELSE word' = Append(word, filter[pos]) /\ UNCHANGED <<inc, exc, sep>>
    /\ UNCHANGED <<tests, filter, order, k, out>>
EndRead ==
    /\ pos = Len(filter) + 1 /\ k = 0
    /\ EndWord /\ word' = <<>> /\ k' = 1
    /\ UNCHANGED <<tests, filter, order, pos, out>>
Inc(name) == (inc = <<>> \/ \E i \in DOMAIN inc : Matches(inc[i], name)) /\ ~\E i \in DOMAIN exc : Matches(exc[i], name)
\* Put i behind all that do not come after it
Insert(i) ==
    LET p == CHOOSE p \in 0..Len(out) : /\ \A j \in 1..p : ~Less(order, tests[i].name, tests[out[j]].name)
                                        /\ p = Len(out) \/ Less(order, tests[i].name, tests[out[p + 1]].name)
    IN SubSeq(out, 1, p) \o <<i>> \o SubSeq(out, p + 1, Len(out))
Take ==
    /\ k > 0 /\ k <= NumTests
    /\ out' = IF tests[k].en /\ Inc(tests[k].name) THEN Insert(k) ELSE out
    /\ k' = k + 1
    /\ UNCHANGED <<tests, filter, order, pos, word, inc, exc, sep>>
MCNext == Read \/ EndRead \/ Take
MCSpec == MCInit /\ [][MCNext]_mcvars
Final == k = NumTests + 1
Right == Final => out = Once(tests, filter, order)
Sound == Final => \A i \in DOMAIN tests :
             (\E j \in DOMAIN out : out[j] = i) <=> Included(filter, tests[i].name)
Stable == Final => \A i, j \in DOMAIN out : i < j =>
             /\ ~Less(order, tests[out[j]].name, tests[out[i]].name)
             /\ Less(order, tests[out[i]].name, tests[out[j]].name) \/ out[i] < out[j]
Everything == Final /\ Split(filter).inc = <<>> /\ Split(filter).exc = <<>> => Len(out) = NumTests
EmitSpec == MCInit /\ [][FALSE /\ UNCHANGED mcvars]_mcvars
EmitInv == PrintT("SCRIPT " \o ToJson([tests |-> tests, filter |-> filter, order |-> order]))
=============================================================================
