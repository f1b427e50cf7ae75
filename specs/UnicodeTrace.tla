--------------------------- MODULE UnicodeTrace ---------------------------
EXTENDS Unicode, TraceBase
TraceInit == l = 1
\* In a locale of single-byte characters, the basic character set is known, the rest of ASCII may be
Basic == {9, 10, 11, 12} \cup (32..126 \ {36, 64, 96})
Images(c) == IF c \in Basic THEN {c} ELSE IF c < 128 THEN {c, 63} ELSE {63}
RECURSIVE Chars(_, _)
Chars(s, i) == LET a == At("8", s, i) IN
    CASE a[1] = "end" -> <<>>
      [] a[1] = "char" -> <<a[2]>> \o Chars(s, i + a[3])
      [] OTHER -> <<Replacement>> \o Chars(s, Resync("8", s, i + 1))
Known(s) == SelectSeq(s, LAMBDA c : c \in Basic \ {63})
Transcoded(utf8) ==
    LET x == Chars(Ev.in, 1) n == Len(Ev.pre) y == SubSeq(Ev.out, n + 1, Len(Ev.out)) IN
    /\ Match("text before", SubSeq(Ev.out, 1, n), Ev.pre)
    /\ (IF Convert("d8", Ev.in, 1, 1000000).why = "end"
        THEN (IF utf8 THEN Match("result", y, Ev.in)
              ELSE /\ Match("length", Len(y), Len(x))
                   /\ Match("result", {k \in 1..Len(x) : y[k] \notin Images(x[k])}, {}))
        ELSE Match("known characters", Known(y), Known(x)))
TraceNext ==
    \/ IsEvent("reset")
    \* One step of incremental conversion; positions are from 0
    \/ IsEvent("step") /\ LET r == Convert(Ev.op, Ev.in, Ev.i + 1, Ev.size - Ev.o) IN
            /\ Match("input consumed", Ev.i2, r.at - 1)
            /\ Match("output position", Ev.o2, Ev.o + Len(r.out))
            /\ Match("output", Ev.out, r.out)
            /\ Match("flags", <<Ev.ex, Ev.err>> \in Flags(r.why), TRUE)
            /\ Match("nothing else written", Ev.clean, TRUE)
    \* Conversion in one go, in all variants, appended to the given text
    \/ IsEvent("whole") /\ LET r == Convert(Ev.op, Ev.in, 1, 1000000) ok == r.why = "end" IN
            /\ Match("success", <<Ev.ok, Ev.threw>>, <<ok, ~ok>>)
            /\ Match("result", Ev.out, IF ok THEN Ev.pre \o r.out ELSE Ev.pre)
            /\ Match("result of throwing variant", Ev.out2, IF ok THEN Ev.pre \o r.out ELSE Ev.pre)
            /\ Match("lenient", Ev.len, Ev.pre \o Lenient(Ev.op, Ev.in, 1))
    \/ IsEvent("part") /\ LET r == Convert(Ev.op, Ev.in, Ev.i + 1, 1000000) IN
            /\ Match("position of first invalid sequence", Ev.i2, r.at - 1)
            /\ Match("result", Ev.out, Ev.pre \o r.out)
    \/ IsEvent("resync") /\ Match("position", Ev.i2, Resync(Ev.form, Ev.in, Ev.i + 1) - 1)
    \/ IsEvent("tonative") /\ Transcoded(Ev.utf8)
    \/ IsEvent("fromnative") /\ Transcoded(Ev.utf8)
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
