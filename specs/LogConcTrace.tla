---------------------------- MODULE LogConcTrace ----------------------------
(* Recorded logging from several threads.                                   *)
EXTENDS LogConc, SequencesExt, TraceBase
tv == avars

TraceInit == l = 1 /\ AInit(0)

TReset ==
    /\ IsEvent("reset")
    /\ thr' = [t \in Threads |-> Idle]
    /\ busy' = [r \in Roots |-> 0]
    /\ taken' = [r \in Roots |-> <<>>]
    /\ limit' = Ev.limit
TSubmit == IsEvent("submit") /\ Submit(Ev.t, Ev.level, ToSet(Ev.route))
\* The text handed to the root is that of the message
RECURSIVE Text(_, _)
Text(prefix, lines) == IF lines = <<>> THEN "" ELSE prefix \o lines[1] \o "\n" \o Text(prefix, Tail(lines))
TEnter == IsEvent("enter") /\ Match("text", Ev.text, Text(Ev.prefix, Ev.lines)) /\ Enter(Ev.t, Ev.r)
TLeave == IsEvent("leave") /\ Leave(Ev.t, Ev.r)
TDone == IsEvent("done") /\ Done(Ev.t)
TSet == IsEvent("set") /\ SetLimit(Ev.v)

(* Everything that went to one root, line by line, after all threads are    *)
(* done: each message of each thread is there as a whole, in order.         *)
(* Messages are sequences of lines, no two of them alike.                   *)
Consume(msgs, out) ==
    LET F(s, line) ==
            \* s: [pos (of each thread: message, line), in (thread in the middle of a message), ok]
            IF ~s.ok THEN s
            ELSE LET next(t) == IF s.pos[t][1] > Len(msgs[t]) THEN "" ELSE msgs[t][s.pos[t][1]][s.pos[t][2]]
                     c == IF s.in # 0 THEN (IF next(s.in) = line THEN { s.in } ELSE {})
                          ELSE { t \in DOMAIN msgs : s.pos[t][1] <= Len(msgs[t]) /\ next(t) = line }
                 IN IF c = {} THEN [s EXCEPT !.ok = FALSE]
                    ELSE LET t == CHOOSE t \in c : TRUE
                             p == s.pos[t]
                         IN IF p[2] < Len(msgs[t][p[1]]) THEN [s EXCEPT !.pos[t] = <<p[1], p[2] + 1>>, !.in = t]
                            ELSE [s EXCEPT !.pos[t] = <<p[1] + 1, 1>>, !.in = 0]
        e == FoldLeft(F, [pos |-> [t \in DOMAIN msgs |-> <<1, 1>>], in |-> 0, ok |-> TRUE], out)
    IN e.ok /\ e.in = 0 /\ \A t \in DOMAIN msgs : e.pos[t][1] = Len(msgs[t]) + 1
TAll ==
    /\ IsEvent("all")
    /\ \A r \in DOMAIN Ev.out : Match("output is whole messages, those of each thread in order", Consume(Ev.msgs[r], Ev.out[r]), TRUE)
    /\ UNCHANGED avars

TraceNext == TReset \/ TSubmit \/ TEnter \/ TLeave \/ TDone \/ TSet \/ TAll
TraceSpec == TraceInit /\ [][TraceNext]_<<l, thr, busy, taken, limit>>
=============================================================================
