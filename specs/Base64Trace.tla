--------------------------- MODULE Base64Trace ---------------------------
EXTENDS Base64, TraceBase
TraceInit == l = 1
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
TraceNext ==
    \/ IsEvent("reset")
    \* Into an expanding buffer
    \/ IsEvent("encode") /\ Match("text", Ev.out, Encode(Ev.in, Ev.c))
    \* Into so much room
    \/ IsEvent("encodeto") /\ LET t == Encode(Ev.in, Ev.c) ok == Len(t) <= Ev.room IN
            /\ Match("success", Ev.ok, ok)
            /\ (IF ok THEN Match("text", Ev.out, t) ELSE Match("lack of space", Ev.lack, TRUE))
    \/ IsEvent("esize") /\ Match("sufficient size", Ev.size >= EncodeSize(Ev.n, Ev.c), TRUE)
    \/ IsEvent("dsize") /\ Match("sufficient size", Ev.size >= (6 * Ev.n) \div 8, TRUE)
    \/ IsEvent("decode") /\ LET r == Decode(Ev.in, Ev.c) IN
            /\ Match("success", Ev.ok, r.ok)
            /\ (IF r.ok THEN Match("bytes", Ev.out, r.out) ELSE TRUE)
    \/ IsEvent("decodeto") /\ LET r == Decode(Ev.in, Ev.c) ok == r.ok /\ Len(r.out) <= Ev.room IN
            /\ Match("success", Ev.ok, ok)
            /\ (IF ok THEN Match("bytes", Ev.out, r.out)
                ELSE IF r.ok THEN Match("lack of space", Ev.lack, TRUE)
                ELSE IF Len(r.out) <= Ev.room THEN Match("lack of space", Ev.lack, FALSE)
                ELSE TRUE)
    \* In pieces; calls are <<input given, end, input left, room, room left, result>>
    \/ IsEvent("iencode") /\ LET t == Encode(Ev.in, Ev.c) IN
            /\ Match("text", Ev.out, t)
            /\ Match("finished", Ev.fin, "done")
            /\ Match("stops for a reason", {k \in 1..Len(Ev.calls) : LET x == Ev.calls[k] IN
                        x[6] = 0 /\ x[5] > 0 /\ ~(x[3] = 0 /\ x[2] = 0)}, {})
    \/ IsEvent("idecode") /\ LET r == Decode(Ev.in, Ev.c) IN
            /\ Match("finished", Ev.fin, IF r.ok THEN "done" ELSE "bad")
            /\ (IF r.ok THEN Match("bytes", Ev.out, r.out)
                ELSE Match("bytes before", IsPrefixOf(Ev.out, r.out), TRUE))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
