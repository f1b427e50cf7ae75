----------------------------- MODULE TraceBase -----------------------------
(* Shared part of all trace specifications: the recorded trace, the position in
   it, and acceptance.  A trace specification extends its design specification
   and this module, and consumes exactly one recorded event per step:

     TraceInit == Init /\ l = 1
     TraceNext == \/ IsEvent("Foo") /\ Foo(Ev.arg) /\ Match("r", Ev.r, expected)
                  \/ ...
*)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

VARIABLE l

Trace == ndJsonDeserialize(IOEnv.TRACE)

Ev == Trace[l]

IsEvent(name) == l <= Len(Trace) /\ Trace[l].e = name /\ l' = l + 1

(* The recorded value must be the expected one; otherwise say what was expected. *)
Match(what, recorded, expected) ==
    IF recorded = expected THEN TRUE
    ELSE PrintT("MISMATCH " \o ToString(l) \o " " \o what \o ": recorded " \o ToString(recorded)
                \o " expected " \o ToString(expected)) /\ FALSE

(* One state per consumed event, plus the initial state. *)
TraceAccepted ==
    LET d == TLCGet("stats").diameter - 1
    IN IF d = Len(Trace) THEN PrintT("TRACE-ACCEPTED " \o ToString(d))
       ELSE PrintT("TRACE-REJECTED-AT " \o ToString(d)) /\ FALSE
=============================================================================
