----------------------------- MODULE UnicodeMC -----------------------------
(* Incremental conversion: input arrives in pieces, and room for output comes
   in pieces. Whatever the pieces, the outcome is that of converting all of it
   at once. Also: encoding and decoding are inverses, for all code points.    *)
EXTENDS Unicode, TLC, Json
CONSTANTS Op, Units, MaxLen, Rooms, Block
VARIABLES in, got, at, out, why
vars == <<in, got, at, out, why>>

Inputs == UNION {[1..n -> Units] : n \in 0..MaxLen}
Init == in \in Inputs /\ got = 0 /\ at = 1 /\ out = <<>> /\ why = "start"
More == got < Len(in) /\ why \in {"start", "end", "part", "short"} /\ got' \in (got + 1)..Len(in) /\ why' = "start" /\ UNCHANGED <<in, at, out>>
Step == why \in {"start", "full"} /\ \E room \in Rooms :
          LET r == Convert(Op, SubSeq(in, 1, got), at, room)
          IN at' = r.at /\ out' = out \o r.out /\ why' = r.why /\ UNCHANGED <<in, got>>
Next == More \/ Step
Spec == Init /\ [][Next]_vars
All == Convert(Op, in, 1, 1000)
\* Nothing is ever produced that is not a part of the result
Prefix == at <= All.at /\ SubSeq(All.out, 1, Len(out)) = out
\* An error is where it is in all of the input
ErrorRight == why = "bad" => All.why = "bad" /\ at = All.at /\ out = All.out
\* "Short" turns out to be bad as soon as there is enough input
EndRight == (got = Len(in) /\ why \in {"end", "part", "short"}) => at = All.at /\ out = All.out /\ why = All.why

\* ---- Round trips for all code points, in blocks
BInit == got \in 0..((1114112 \div Block) - 1) /\ in = <<>> /\ at = 1 /\ out = <<>> /\ why = "start"
BSpec == BInit /\ [][UNCHANGED vars]_vars
RoundTrip == \A c \in (got * Block)..((got * Block) + Block - 1) :
    IF Valid(c) THEN /\ At("8", Utf8(c), 1) = <<"char", c, Len(Utf8(c))>>
                     /\ At("16", Utf16(c), 1) = <<"char", c, Len(Utf16(c))>>
                     /\ \A k \in 1..(Len(Utf8(c)) - 1) : At("8", SubSeq(Utf8(c), 1, k), 1) = <<"part">>
                     /\ \A u \in {Utf8(c)[k] : k \in 1..Len(Utf8(c))} : u >= 0 /\ u < 256
    ELSE At("8", Utf8(c), 1) = <<"bad">>

\* ---- Inputs for the code
EmitInv == PrintT("SCRIPT " \o ToJson([form |-> Source(Op), in |-> in]))
GInit == in \in Inputs /\ got = 0 /\ at = 1 /\ out = <<>> /\ why = "start"
GenSpec == GInit /\ [][UNCHANGED vars]_vars
=============================================================================
