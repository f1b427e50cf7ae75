-------------------------- MODULE TextCodecTrace --------------------------
EXTENDS TextCodec, TraceBase
TraceInit == l = 1
\* The state after an error means nothing
Seen(stops) == \E r \in stops : /\ r.at = Ev.n + 1 /\ r.out = Ev.out /\ r.why = Ev.why /\ (r.why = "error" \/ r.st = Ev.st2)
TraceNext ==
    \/ IsEvent("reset")
    \* One call
    \/ IsEvent("dec") /\ LET w == Decode(Ev.form, Ev.mode, Ev.in, 1, Ev.st, Ev.room, Ev.eod, <<>>) IN
            /\ Match("call of decode() " \o ToString(<<Ev.n, Ev.out, Ev.why, Ev.st2>>) \o " among " \o ToString(w), Seen(w), TRUE)
            /\ Match("rest untouched", Ev.clean, TRUE)
    \/ IsEvent("enc") /\ LET w == Encode(Ev.form, Ev.mode, Ev.in, 1, Ev.st, Ev.room, <<>>) IN
            /\ Match("call of encode() " \o ToString(<<Ev.n, Ev.out, Ev.why, Ev.st2>>) \o " among " \o ToString(w), Seen(w), TRUE)
            /\ Match("rest untouched", Ev.clean, TRUE)
    \/ IsEvent("unshift") /\ LET r == Unshift(Ev.st, Ev.room) IN
            Match("unshift", <<Ev.out, Ev.st2, Ev.ret>>, <<r.out, r.st, r.why = "done">>)
    \* Everything that the calls for one input did
    \/ IsEvent("decall") /\ LET r == DecodeAll(Ev.form, Ev.mode, Ev.in) IN
            Match("decoded in pieces", <<Ev.n, Ev.out, Ev.why>>, <<r.at - 1, r.out, r.why>>)
    \/ IsEvent("encall") /\ LET r == EncodeAll(Ev.form, Ev.mode, Ev.in) IN
            Match("encoded in pieces", <<Ev.n, Ev.out, Ev.why>>, <<r.at - 1, r.out, r.why>>)
    \* Input that as many characters are the decoding of, at most; it may or may not include a change of state at the end
    \/ IsEvent("simul") /\ LET w == Decode(Ev.form, "strict", Ev.in, 1, Ev.st, Ev.size, FALSE, <<>>) IN
            Match("simulated decoding " \o ToString(<<Ev.n, Ev.st2>>) \o " among " \o ToString(w),
                  \E r \in w : r.at = Ev.n + 1 /\ r.st = Ev.st2, TRUE)
    \* Newlines
    \/ IsEvent("nldec") /\ LET r == NlDecode(Ev.in, 1, Ev.room, Ev.eod, <<>>, 0) IN
            Match("newline decoding", <<Ev.n, Ev.out, Ev.clear>>,
                  <<r.at - 1, r.out, IF r.k = 0 THEN Ev.before ELSE Ev.offset + r.k>>)
    \/ IsEvent("nlenc") /\ LET r == NlEncode(Ev.in, 1, Ev.room, <<>>) IN
            Match("newline encoding", <<Ev.n, Ev.out>>, <<r.at - 1, r.out>>)
    \/ IsEvent("nlsimul") /\ LET p == NlMeasure(Ev.in, 1, Ev.size) IN
            Match("simulated newline decoding", <<Ev.ok, Ev.n>>, IF p < 0 THEN <<FALSE, 0>> ELSE <<TRUE, p - 1>>)
    \* Texts
    \/ IsEvent("textdec") /\ LET r == TextDecode(Ev.os, Ev.form, Ev.mode, Ev.in) ok == r.why = "done" IN
            /\ Match("decoding of text", <<Ev.ok, Ev.padded, Ev.out>>, <<ok, TRUE, r.out>>)
            /\ Match("variants", <<Ev.threw, Ev.same>>, <<~ok, TRUE>>)
    \/ IsEvent("textenc") /\ LET r == TextEncode(Ev.os, Ev.form, Ev.mode, Ev.in) ok == r.why = "done" IN
            /\ Match("encoding of text", <<Ev.ok, Ev.padded, Ev.out>>, <<ok, TRUE, r.out>>)
            /\ Match("variants", <<Ev.threw, Ev.same>>, <<~ok, TRUE>>)
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
