----------------------------- MODULE TestSelect -----------------------------
(* Which tests archon::check executes, and in which order: wildcard filters    *)
(* (check/wildcard_filter.cpp), orders by patterns                             *)
(* (check/pattern_based_test_order.cpp), and what the runner makes of them.    *)
(* Text is a sequence of character codes; 32 is a space, 42 the wildcard and   *)
(* 45 the separator between what is included and what is excluded.             *)
EXTENDS StringMatcher, SequencesExt

Space == 32
Words(text) ==
    LET F(s, c) == IF c = Space THEN (IF s.w = <<>> THEN s ELSE [done |-> Append(s.done, s.w), w |-> <<>>])
                   ELSE [s EXCEPT !.w = Append(@, c)]
        e == FoldLeft(F, [done |-> <<>>, w |-> <<>>], text)
    IN IF e.w = <<>> THEN e.done ELSE Append(e.done, e.w)
Dash == <<45>>
\* At most one separator is allowed
WellFormed(text) == Cardinality({ i \in DOMAIN Words(text) : Words(text)[i] = Dash }) <= 1
Split(text) ==
    LET w == Words(text)
        at == { i \in DOMAIN w : w[i] = Dash }
    IN IF at = {} THEN [inc |-> w, exc |-> <<>>]
       ELSE LET i == CHOOSE i \in at : TRUE IN [inc |-> SubSeq(w, 1, i - 1), exc |-> SubSeq(w, i + 1, Len(w))]
Included(text, name) ==
    LET s == Split(text)
    IN /\ s.inc = <<>> \/ First(s.inc, name) # 0
       /\ First(s.exc, name) = 0

\* The place of a name in the order of a list of patterns
Rank(patterns, name) == LET f == First(patterns, name) IN IF f = 0 THEN Len(patterns) + 1 ELSE f
Less(patterns, a, b) == Rank(patterns, a) < Rank(patterns, b)

(* tests: Seq([name, en, c]); returns the indexes of those that are executed,  *)
(* in order.                                                                   *)
Selected(tests, filter) == SelectSeq([i \in DOMAIN tests |-> i], LAMBDA i : tests[i].en /\ Included(filter, tests[i].name))
InOrder(tests, patterns, sel) ==
    FlattenSeq([r \in 1..(Len(patterns) + 1) |-> SelectSeq(sel, LAMBDA i : Rank(patterns, tests[i].name) = r)])
Once(tests, filter, patterns) == InOrder(tests, patterns, Selected(tests, filter))
\* Executions are pairs of a test and the number of the repetition
Execs(tests, filter, patterns, reps) ==
    FlattenSeq([r \in 1..reps |-> [k \in DOMAIN Once(tests, filter, patterns) |-> <<Once(tests, filter, patterns)[k], r>>]])
\* With several threads, tests that do not allow others beside them come last
Begins(tests, filter, patterns, reps, threads) ==
    LET all == Execs(tests, filter, patterns, reps)
    IN IF threads = 1 THEN all
       ELSE SelectSeq(all, LAMBDA e : tests[e[1]].c) \o SelectSeq(all, LAMBDA e : ~tests[e[1]].c)
\* disabled, excluded, selected, executions
Summary(tests, filter, reps) ==
    LET en == Cardinality({ i \in DOMAIN tests : tests[i].en })
        sel == Len(Selected(tests, filter))
    IN <<Len(tests) - en, en - sel, sel, sel * reps>>
Unique(tests) == \A i, j \in DOMAIN tests : tests[i].name = tests[j].name => i = j
=============================================================================
