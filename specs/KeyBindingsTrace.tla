-------------------------- MODULE KeyBindingsTrace --------------------------
(* c: handlers called, in order, with what they were told; r: result (FALSE also
   when a handler failed)                                                     *)
EXTENDS KeyBindings, TraceBase
tvars == <<vars, l>>
TraceInit == Init /\ l = 1
Cs == [i \in DOMAIN Ev.c |-> [h |-> Ev.c[i] \div 2, d |-> Ev.c[i] % 2 = 1]]
Obs == Match("calls", Cs, calls') /\ Match("result", Ev.r, ret')
\* the result is that of the handler, if one was called
R == IF Ev.c = <<>> THEN TRUE ELSE Ev.r
TraceNext ==
    \/ IsEvent("reset") /\ bind' = [k \in Keys |-> {}] /\ slot' = [k \in Keys |-> NoSlot]
         /\ mode' = 0 /\ blurring' = FALSE /\ todo' = {} /\ calls' = <<>> /\ ret' = TRUE
    \/ IsEvent("bind") /\ Bind(Ev.k, Ev.m, Ev.n, Ev.h) /\ Obs
    \/ IsEvent("mode") /\ SetMode(Ev.m) /\ Match("mode", Ev.got, mode') /\ Obs
    \/ IsEvent("down") /\ Down(Ev.k, Ev.t, Ev.a) /\ Obs
    \/ IsEvent("up") /\ Up(Ev.k, Ev.a) /\ Obs
    \/ IsEvent("blur") /\ Ev.a = Ev.r /\ Blur(Cs, Ev.r)
    \/ IsEvent("resume") /\ Ev.a = Ev.r /\ Resume(Cs, Ev.r)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
