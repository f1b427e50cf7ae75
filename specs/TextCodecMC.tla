---------------------------- MODULE TextCodecMC ----------------------------
(* Input arrives in pieces, room for output comes in pieces, and a call stops
   at any place that it is permitted to stop at. The outcome is that of one
   call with everything.                                                      *)
EXTENDS TextCodec, TLC, Json
CONSTANTS Dir, Form, Mode, Units, MaxLen, Rooms, Frags, MaxFrags
VARIABLES in, got, eod, at, st, out, why
vars == <<in, got, eod, at, st, out, why>>
Inputs == UNION {[1..n -> Units] : n \in 0..MaxLen}
Init == in \in Inputs /\ got = 0 /\ eod = FALSE /\ at = 1 /\ st = 0 /\ out = <<>> /\ why = "start"
More == /\ why \in {"start", "done"} /\ ~eod
        /\ \/ got < Len(in) /\ got' \in (got + 1)..Len(in) /\ eod' = FALSE
           \/ got = Len(in) /\ got' = got /\ eod' = TRUE
        /\ why' = "start" /\ UNCHANGED <<in, at, st, out>>
Call(room) == IF Dir = "decode" THEN Decode(Form, Mode, SubSeq(in, 1, got), at, st, room, eod, <<>>)
              ELSE Encode(Form, Mode, SubSeq(in, 1, got), at, st, room, <<>>)
Step == /\ why \in {"start", "full"}
        /\ \E room \in Rooms : \E r \in Call(room) :
              at' = r.at /\ st' = r.st /\ out' = out \o r.out /\ why' = r.why
        /\ UNCHANGED <<in, got, eod>>
Next == More \/ Step
Spec == Init /\ [][Next]_vars
All == IF Dir = "decode" THEN DecodeAll(Form, Mode, in) ELSE TheOne(Encode(Form, Mode, in, 1, 0, Plenty, <<>>))
Prefix == at <= All.at /\ SubSeq(All.out, 1, Len(out)) = out
ErrorRight == why = "error" => All.why = "error" /\ at = All.at /\ out = All.out
EndRight == (eod /\ why = "done") => All.why = "done" /\ at = All.at /\ out = All.out /\ st = All.st
Single == Cardinality(IF Dir = "decode" THEN Decode(Form, Mode, in, 1, 0, Plenty, TRUE, <<>>) ELSE Encode(Form, Mode, in, 1, 0, Plenty, <<>>)) = 1
\* With enough room for one character there is always progress
Progress == (got > 0 /\ why # "error") => \A r \in Call(4) : r.why = "full" => r.at > at
LenientNeverFails == Lenient(Mode) => why # "error"
\* What is encoded is recovered, and newlines are too unless there were CRs before them
Back == LET e == EncodeAll(Form, Mode, in) d == DecodeAll(Form, Mode, e.out) IN
        (Dir = "encode" /\ e.why = "done") =>
            /\ d.why = "done" /\ d.st = 0
            /\ TheOne(Encode(Form, Mode, in, 1, 0, Plenty, <<>>)).why = "done" => (Lenient(Mode) \/ d.out = in)
NlBack == (Dir = "encode" /\ \A k \in 1..(Len(in) - 1) : ~(in[k] = 13 /\ in[k + 1] = 10)) =>
             NlDecode(NlEncode(in, 1, Plenty, <<>>).out, 1, Plenty, TRUE, <<>>, 0).out = in

\* ---- Inputs for the code, made of such fragments
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
GInit == in \in UNION {[1..n -> Frags] : n \in 0..MaxFrags} /\ got = 0 /\ eod = FALSE /\ at = 1 /\ st = 0 /\ out = <<>> /\ why = "start"
EmitInv == PrintT("SCRIPT " \o ToJson([form |-> Form, dir |-> Dir, in |-> Cat(in)]))
GenSpec == GInit /\ [][UNCHANGED vars]_vars
Utf8Frags == {<<65>>, <<10>>, <<13>>, <<13, 10>>, <<0>>, <<195, 169>>, <<226, 130, 172>>, <<240, 159, 152, 128>>, <<226, 130>>, <<240, 159, 152>>, <<195>>,
              <<255>>, <<128>>, <<192>>, <<224, 128>>, <<237, 160, 128>>, <<240, 128, 128>>, <<128, 128, 128>>}
AsciiFrags == {<<65>>, <<66>>, <<10>>, <<13>>, <<13, 10>>, <<0>>, <<127>>, <<128>>, <<195, 169>>, <<255>>, <<128, 128, 128, 128>>}
ShiftFrags == {<<65>>, <<66>>, <<10>>, <<13>>, <<13, 10>>, <<27, 48>>, <<27, 49>>, <<27>>, <<127>>, <<200, 201, 202>>}
CharFrags == {<<65>>, <<10>>, <<13>>, <<13, 10>>, <<0>>, <<233>>, <<8364>>, <<128512>>, <<55296>>, <<1089>>, <<1090>>, <<1087>>, <<66>>, <<57343>>}
=============================================================================
