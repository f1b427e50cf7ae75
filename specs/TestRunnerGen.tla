--------------------------- MODULE TestRunnerGen ---------------------------
(* Prints one script per complete behaviour of the model: a configuration and
   the order in which its executions end.                                   *)
EXTENDS TestRunner, Json
Emit == (st' = "done" /\ st # "done") => PrintT("SCRIPT " \o ToJson([run |-> run', order |-> hist']))
=============================================================================
