--------------------------- MODULE TimestampTrace ---------------------------
EXTENDS Timestamp, TraceBase
B == INSTANCE BigInt
VARIABLES bits, true, sec, true0
tvars == <<vars, bits, true, sec, true0, l>>
TraceInit == l = 1 /\ started = FALSE /\ lost = B!Zero /\ bits = 1 /\ true = B!Zero /\ sec = B!Zero /\ true0 = B!Zero
Period == B!Pow2(bits)
\* Must hold of the recorded history, or the driver is wrong: clocks are monotonic, the code sees the
\* lowest bits, and the second clock (nanoseconds since the first timestamp) is close enough
Million == B!Big(1000000)
Legal == /\ B!Le(true, Ev.true) /\ B!FMod(Ev.true, Period) = Ev.t
         /\ (started => /\ B!Le(sec, Ev.ns)
                        /\ LET off == B!Abs(B!Sub(Ev.ns, B!Mul(Million, B!Sub(Ev.true, true0)))) IN
                           B!Lt(B!Mul(B!Two, off), B!Mul(Million, B!Sub(Period, B!One))))
Lost == IF started THEN lost ELSE B!Sub(Ev.true, Ev.t)
TraceNext ==
    \/ IsEvent("reset") /\ started' = FALSE /\ bits' = Ev.n /\ true' = B!Zero /\ sec' = B!Zero /\ UNCHANGED <<lost, true0>>
    \/ IsEvent("unwrap") /\ Match("legal", Legal, TRUE) /\ Match("time", Ev.r, B!Sub(Ev.true, Lost))
       /\ started' = TRUE /\ lost' = Lost /\ true' = Ev.true
       /\ sec' = (IF started THEN Ev.ns ELSE B!Zero) /\ true0' = (IF started THEN true0 ELSE Ev.true) /\ UNCHANGED bits
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
