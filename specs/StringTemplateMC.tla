------------------------- MODULE StringTemplateMC -------------------------
(* The notation is unambiguous: what any sequence of items is written as parses to just these items. *)
EXTENDS StringTemplate, TLC, Json
CONSTANTS Chars, MaxItems, MaxText
VARIABLES items, text
vars == <<items, text>>
Names == {<<>>, <<120>>, <<123>>, <<97, 98>>, <<64>>}
\* Ways of writing a reference
Writings(n) == {<<At, Open>> \o n \o <<Close>>} \cup (IF Len(n) = 1 /\ n[1] \notin {At, Open} THEN {<<At>> \o n} ELSE {})
Init == items = <<>> /\ text = <<>>
Next == Len(items) < MaxItems /\
    \/ \E c \in Chars : items' = Append(items, Lit(<<c>>)) /\ text' = text \o (IF c = At THEN <<At, At>> ELSE <<c>>)
    \/ \E n \in Names : \E w \in Writings(n) : items' = Append(items, Ref(n)) /\ text' = text \o w
Spec == Init /\ [][Next]_vars
Unambiguous == Parse(text, Names) = [items |-> items, errs |-> <<>>]
\* All texts
TNext == Len(text) < MaxText /\ \E c \in Chars : text' = Append(text, c) /\ UNCHANGED items
TSpec == Init /\ [][TNext]_vars
EmitInv == PrintT("SCRIPT " \o ToJson([t |-> text]))
=============================================================================
