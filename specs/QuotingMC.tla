------------------------------ MODULE QuotingMC ------------------------------
(* All strings over representative characters, with every maximum size: the quoted
   form reads back as the string, and sizes are kept.                           *)
EXTENDS Quoting, TLC, Json
CONSTANTS MaxLen, MaxSize
VARIABLES str
vars == <<str>>
Ch(c, p, sp, x) == [c |-> c, print |-> p, space |-> sp, xdigit |-> x]
Alphabet == {Ch(97, TRUE, FALSE, TRUE), Ch(48, TRUE, FALSE, TRUE), Ch(56, TRUE, FALSE, TRUE), Ch(120, TRUE, FALSE, FALSE), Ch(32, TRUE, TRUE, FALSE), Ch(10, FALSE, TRUE, FALSE),
             Ch(34, TRUE, FALSE, FALSE), Ch(39, TRUE, FALSE, FALSE), Ch(92, TRUE, FALSE, FALSE), Ch(1, FALSE, FALSE, FALSE), Ch(200, FALSE, FALSE, FALSE), Ch(511, FALSE, FALSE, FALSE), Ch(512, FALSE, FALSE, FALSE), Ch(8232, FALSE, TRUE, FALSE)}
Init == str = <<>>
Next == Len(str) < MaxLen /\ \E x \in Alphabet : str' = Append(str, x)
Spec == Init /\ [][Next]_vars
Sizes == -1..MaxSize
ReadsBack == LET q == QuotedForm(str, 34, -1) IN q.t[1] = 34 /\ q.t[Len(q.t)] = 34 /\ Reading(q.t) = Plain(str, Len(str))
\* No quotation mark ends it early
Closed == LET q == QuotedForm(str, 34, -1).t IN \A i \in 2..(Len(q) - 1) : q[i] = 34 => q[i - 1] = Backslash
Fits == \A m \in 0..MaxSize : \A smart \in BOOLEAN :
            /\ Len(Shown(str, 34, m, smart)) <= (IF m < 5 THEN 5 ELSE m)
\* With room for all, nothing is left out
Enough == \A smart \in BOOLEAN : LET t == Shown(str, 34, -1, smart) IN Shown(str, 34, Len(t), smart) = t \/ Len(t) < 5
\* More room shows no less
Grows == \A m \in 5..(MaxSize - 1) : QuotedForm(str, 34, m).n <= QuotedForm(str, 34, m + 1).n /\ UnquotedForm(str, 34, m).n <= UnquotedForm(str, 34, m + 1).n
EmitInv == PrintT("SCRIPT " \o ToJson([f |-> "quote", s |-> Plain(str, Len(str))]))
=============================================================================
