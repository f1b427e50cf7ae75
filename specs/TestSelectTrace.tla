--------------------------- MODULE TestSelectTrace ---------------------------
(* Recorded selections and runs.                                             *)
EXTENDS TestSelect, TraceBase
TraceInit == l = 1
TInclude == IsEvent("include") /\ Match("r", Ev.r, Included(Ev.filter, Ev.name))
TLess == IsEvent("less") /\ Match("r", Ev.r, Less(Ev.order, Ev.a, Ev.b))
TRun ==
    /\ IsEvent("run")
    /\ IF ~Unique(Ev.tests) THEN Match("error", Ev.error, TRUE)
       ELSE /\ Match("error", Ev.error, FALSE)
            /\ LET expected == Begins(Ev.tests, Ev.filter, Ev.order, Ev.reps, Ev.threads)
               IN IF Ev.shuffle THEN Match("executions", Len(Ev.begins), Len(expected)) /\ Match("executed", ToSet(Ev.begins), ToSet(expected))
                  ELSE Match("order of executions", Ev.begins, expected)
            /\ Match("summary", Ev.summary, Summary(Ev.tests, Ev.filter, Ev.reps))
TCommand ==
    /\ IsEvent("command")
    /\ Match("executed", Ev.begins, IF Ev.help THEN <<>> ELSE Execs(Ev.tests, Ev.filter, Ev.order, Ev.reps))
    /\ Match("status", Ev.status, IF Ev.help THEN 0 ELSE IF \E i \in DOMAIN Ev.begins : Ev.begins[i][1] = Ev.bad THEN 1 ELSE 0)
TraceNext == TInclude \/ TLess \/ TRun \/ TCommand
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
