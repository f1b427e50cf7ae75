---------------------------- MODULE TimestampMC ----------------------------
(* The design: the number of wrap-arounds is the one that brings the elapsed
   time closest to the elapsed time of the second clock.  Checked for every
   history of a small clock.                                                  *)
EXTENDS Timestamp, Json, TLC
CONSTANTS M, MaxTime, MaxLen

VARIABLES true0, true, sec, first, got, hist
mvars == <<vars, true0, true, sec, first, got, hist>>
MCInit == started = FALSE /\ lost = 0 /\ true0 = 0 /\ true = 0 /\ sec = 0 /\ first = 0 /\ got = 0 /\ hist = <<>>
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Near(s, d) == 2 * Abs(s - d) < M
Tdiv(a, b) == IF a < 0 THEN 0 - ((0 - a) \div b) ELSE a \div b
Estimate(t, s) == Tdiv(s + M \div 2 - (t - first), M) * M + t
MCNext ==
    /\ Len(hist) < MaxLen
    /\ \E x \in true..MaxTime :
       IF ~started
       THEN /\ started' = TRUE /\ lost' = x - (x % M) /\ true0' = x /\ true' = x /\ sec' = 0 /\ first' = x % M /\ got' = x % M
            /\ hist' = <<<<x, 0>>>>
       ELSE \E s \in sec..(MaxTime + M) :
            /\ Near(s, x - true0)
            /\ true' = x /\ sec' = s /\ got' = Estimate(x % M, s) /\ hist' = Append(hist, <<x, s>>)
            /\ UNCHANGED <<started, lost, true0, first>>
MCSpec == MCInit /\ [][MCNext]_mvars
Recovered == started => got = true - lost
EmitInv == Len(hist) = MaxLen => PrintT("SCRIPT " \o ToJson(<<M, hist>>))
MCView == <<started, true0, true, sec, got, Len(hist)>>
=============================================================================
