------------------------------ MODULE CliTrace ------------------------------
(* A recorded use of the command line processor. *)
EXTENDS Cli, TraceBase
VARIABLES Cs, vars

Conv(S) == [S EXCEPT !.opts = [k \in DOMAIN S.opts |-> [S.opts[k] EXCEPT !.forms = ToSet(S.opts[k].forms)]]]

TraceInit == l = 1 /\ Cs = <<>> /\ vars = <<>>

TReset ==
    /\ IsEvent("reset")
    /\ Match("codes", Len(Ev.codes), Len(Ev.specs))
    /\ LET Ss == TLCEval([k \in DOMAIN Ev.specs |-> Conv(Ev.specs[k])])
       IN /\ (\A k \in DOMAIN Ss : Match("verdict", Verdict(Ss[k], Ev.codes[k]), TRUE))
          /\ Cs' = IF \A k \in DOMAIN Ss : Ev.codes[k] = "" THEN [k \in DOMAIN Ss |-> TLCEval(Context(Ss[k]))]
                   ELSE <<>>
    /\ vars' = Ev.vars
TProcess ==
    /\ IsEvent("process")
    /\ Cs # <<>>
    /\ Match("errors are in order of arguments", Ordered(Ev.errs), TRUE)
    /\ LET rs == TLCEval(Results(Cs, Ev.args, vars))
           same == { r \in rs : r.ret = Ev.ret /\ r.status = Ev.status /\ r.log = Ev.log /\ r.vars = Ev.vars
                                  /\ SameErrors(r.errs, Ev.errs) }
       IN Match("outcome", [ret |-> Ev.ret, status |-> Ev.status, log |-> Ev.log, vars |-> Ev.vars, errs |-> Ev.errs],
                IF same = {} THEN CHOOSE r \in rs : TRUE
                ELSE [ret |-> Ev.ret, status |-> Ev.status, log |-> Ev.log, vars |-> Ev.vars, errs |-> Ev.errs])
    /\ UNCHANGED <<Cs, vars>>

TraceNext == TReset \/ TProcess
TraceSpec == TraceInit /\ [][TraceNext]_<<l, Cs, vars>>
=============================================================================
