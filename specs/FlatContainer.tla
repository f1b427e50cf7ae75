--------------------------- MODULE FlatContainer ---------------------------
(* core::FlatMap, FlatMultimap, FlatSet, FlatMultiset.  An entry is <<k, t, v>>:
   the key k by which entries are ordered, a tag t by which keys that compare
   equal can be told apart, and the mapped value v (0 in sets).              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

VARIABLES ents,   \* sequence of entries
          multi,  \* whether equal keys are kept
          hist    \* ghost: operations, for script generation
vars == <<ents, multi>>

Key(e) == e[1]
\* Declarative meaning of the bounds (0-based positions)
Count(s, P(_)) == Cardinality({i \in DOMAIN s : P(s[i])})
Lower(s, k) == Count(s, LAMBDA e: Key(e) < k)
Upper(s, k) == Count(s, LAMBDA e: Key(e) <= k)
Has(s, k) == \E i \in DOMAIN s : Key(s[i]) = k
InsertAt(s, i, e) == SubSeq(s, 1, i) \o <<e>> \o SubSeq(s, i + 1, Len(s))

\* The binary searches of impl/flat_map_impl.hpp on positions begin..end
RECURSIVE LowerAlg(_, _, _, _), UpperAlg(_, _, _, _)
LowerAlg(s, k, b, e) == IF b = e THEN b ELSE LET m == b + (e - b) \div 2 IN
                        IF Key(s[m + 1]) < k THEN LowerAlg(s, k, m + 1, e) ELSE LowerAlg(s, k, b, m)
UpperAlg(s, k, b, e) == IF b = e THEN b ELSE LET m == b + (e - b) \div 2 IN
                        IF ~(k < Key(s[m + 1])) THEN UpperAlg(s, k, m + 1, e) ELSE UpperAlg(s, k, b, m)

Init == ents = <<>> /\ multi \in BOOLEAN

\* After insertion of e into s
Ins(s, e) == IF multi THEN InsertAt(s, Upper(s, Key(e)), e)
             ELSE IF Has(s, Key(e)) THEN s ELSE InsertAt(s, Lower(s, Key(e)), e)
InsPos(s, e) == IF multi THEN Upper(s, Key(e)) ELSE Lower(s, Key(e))
InsNew(s, e) == multi \/ ~Has(s, Key(e))
RECURSIVE InsAll(_, _)
InsAll(s, es) == IF es = <<>> THEN s ELSE InsAll(Ins(s, Head(es)), Tail(es))

Insert(e, threw) == ents' = (IF threw THEN ents ELSE Ins(ents, e)) /\ UNCHANGED multi
\* n of the entries were inserted before an exception (all of them if there was none)
InsertRange(es, n) == n \in 0..Len(es) /\ ents' = InsAll(ents, SubSeq(es, 1, n)) /\ UNCHANGED multi
\* m[k] = v
Assign(k, t, v) ==
    LET s == Ins(ents, <<k, t, 0>>) p == Lower(s, k) + 1
    IN ~multi /\ ents' = [s EXCEPT ![p] = <<@[1], @[2], v>>] /\ UNCHANGED multi
Erase(k) == ents' = SelectSeq(ents, LAMBDA e: Key(e) # k) /\ UNCHANGED multi
Clear == ents' = <<>> /\ UNCHANGED multi

------------------------------------------------------------------------------
CONSTANTS Keys, MaxLen
Hist(op, k) == hist' = Append(hist, [op |-> op, k |-> k])
MCInit == Init /\ hist = <<>>
MCNext == \E k \in Keys :
    \/ Insert(<<k, Len(hist), 0>>, FALSE) /\ Hist("insert", k)
    \/ Erase(k) /\ Hist("erase", k)
    \/ Assign(k, Len(hist), 1) /\ Hist("assign", k)
    \/ Clear /\ Hist("clear", 0)
MCSpec == MCInit /\ [][MCNext]_<<vars, hist>>
Bound == Len(ents') <= MaxLen
KeysView == <<multi, [i \in DOMAIN ents |-> Key(ents[i])]>>
Emit == PrintT("SCRIPT " \o ToJson(hist'))

Sorted == \A i, j \in DOMAIN ents : i < j => Key(ents[i]) <= Key(ents[j])
Unique == ~multi => \A i, j \in DOMAIN ents : i # j => Key(ents[i]) # Key(ents[j])
\* Equal keys are kept in the order of insertion (tags are increasing in the model)
Stable == \A i, j \in DOMAIN ents : (i < j /\ Key(ents[i]) = Key(ents[j])) => ents[i][2] < ents[j][2]
SearchIsRight == \A k \in Keys \cup {0, 99} :
    LET lo == LowerAlg(ents, k, 0, Len(ents)) IN
    /\ lo = Lower(ents, k)
    /\ UpperAlg(ents, k, 0, Len(ents)) = Upper(ents, k)
    /\ UpperAlg(ents, k, lo, Len(ents)) = Upper(ents, k)
    /\ (lo < Len(ents) /\ ~(k < Key(ents[lo + 1]))) = Has(ents, k)
=============================================================================
