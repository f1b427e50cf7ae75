----------------------------- MODULE TestRunner -----------------------------
(* The test runner of archon::check (check/test_runner.cpp and
   check/noinst/thread_context_impl.cpp): a list of tests, repeated a number of
   times, executed by a number of threads.

   Tests that allow it are executed by the threads from a shared queue.  The
   thread that finds the queue empty while it is the only one left also
   executes (on the calling thread) the tests that do not allow concurrency.
   Each thread counts on its own, and its counts are merged into the totals
   when the thread ends.                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES run,     \* the configuration of the run (see Start)
          st,      \* "idle", "running" (root begun), "ended" (root ended), "done"
          left,    \* concurrent executions not yet begun
          nleft,   \* nonconcurrent executions not yet begun
          th,      \* per thread: its state, current execution, and counts
          tot,     \* merged totals
          truth,   \* ghost: what really happened
          begun    \* ghost: set of executions begun

vars == <<run, st, left, nleft, th, tot, truth, begun>>

Zero == [checks |-> 0, fchecks |-> 0, fexecs |-> 0]
None == [x |-> 0, rep |-> 0]
NewThread == [s |-> "new", cur |-> None, in |-> "out", bad |-> FALSE, non |-> FALSE,
              exp |-> 0, rep |-> 0, checks |-> 0, fchecks |-> 0, fexecs |-> 0]

Selected(tests) == SelectSeq([i \in 1..Len(tests) |-> i], LAMBDA i: tests[i].en /\ tests[i].inc)

\* Executions in repetition-major order
Execs(sel, reps) ==
    [k \in 1..(Len(sel) * reps) |-> [x |-> sel[((k - 1) % Len(sel)) + 1], rep |-> ((k - 1) \div Len(sel)) + 1]]

Min(a, b) == IF a < b THEN a ELSE b

NumThreads(r) ==
    LET conc(e) == r.tests[e.x].c /\ r.req > 1
        all == Execs(Selected(r.tests), r.reps)
        nc == Len(SelectSeq(all, conc))
    IN Min(r.req, IF nc = 0 /\ Len(all) > 0 THEN 1 ELSE nc)

Init == /\ run = [tests |-> <<>>, reps |-> 0, req |-> 1, shuffle |-> FALSE]
        /\ st = "idle" /\ left = <<>> /\ nleft = <<>> /\ th = <<>> /\ tot = Zero /\ truth = Zero
        /\ begun = {}

\* r: [tests: Seq([c: allows concurrency, en: enabled, inc: included by the filter]),
\*     reps, req: requested number of threads (>= 1), shuffle]
Start(r) ==
    LET all == Execs(Selected(r.tests), r.reps)
        conc(e) == r.tests[e.x].c /\ r.req > 1
    IN /\ st \in {"idle", "done"}
       /\ run' = r /\ st' = "running"
       /\ left' = SelectSeq(all, conc)
       /\ nleft' = SelectSeq(all, LAMBDA e: ~conc(e))
       /\ th' = [t \in 1..NumThreads(r) |-> NewThread]
       /\ tot' = Zero /\ truth' = Zero /\ begun' = {}

ThreadBegin(t) ==
    /\ st = "running" /\ t \in DOMAIN th /\ th[t].s = "new"
    /\ th' = [th EXCEPT ![t].s = "idle"]
    /\ UNCHANGED <<run, st, left, nleft, tot, truth, begun>>

Others(t) == DOMAIN th \ {t}
Alone(t) == \A u \in Others(t) : th[u].s = "ended"

Remove(s, e) == LET i == CHOOSE i \in DOMAIN s : s[i] = e
                IN SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

\* Is e allowed to be the next of the queue s?
Next1(s, e) == IF run.shuffle THEN \E i \in DOMAIN s : s[i] = e ELSE s # <<>> /\ Head(s) = e

BeginCur(t, e, non) ==
    /\ th' = [th EXCEPT ![t].s = "busy", ![t].cur = e, ![t].in = "out", ![t].bad = FALSE, ![t].non = non,
                        ![t].exp = 0, ![t].rep = 0]
    /\ begun' = begun \cup {e}
    /\ UNCHANGED <<run, st, tot, truth>>

BeginConcur(t, e) ==
    /\ t \in DOMAIN th /\ th[t].s = "idle" /\ Next1(left, e)
    /\ left' = Remove(left, e) /\ UNCHANGED nleft /\ BeginCur(t, e, FALSE)

BeginNonconcur(t, e) ==
    /\ t \in DOMAIN th /\ th[t].s = "idle" /\ left = <<>> /\ Alone(t) /\ Next1(nleft, e)
    /\ nleft' = Remove(nleft, e) /\ UNCHANGED left /\ BeginCur(t, e, TRUE)

Busy(t, e) == t \in DOMAIN th /\ th[t].s = "busy" /\ th[t].cur = e

Enter(t, e) ==
    /\ Busy(t, e) /\ th[t].in = "out"
    /\ th' = [th EXCEPT ![t].in = "in"]
    /\ UNCHANGED <<run, st, left, nleft, tot, truth, begun>>

\* The test body performs a check with outcome ok
Check(t, e, ok) ==
    /\ Busy(t, e) /\ th[t].in = "in"
    /\ th' = [th EXCEPT ![t].checks = @ + 1,
                        ![t].fchecks = @ + (IF ok THEN 0 ELSE 1),
                        ![t].exp = @ + (IF ok THEN 0 ELSE 1),
                        ![t].bad = @ \/ ~ok]
    /\ truth' = [truth EXCEPT !.checks = @ + 1, !.fchecks = @ + (IF ok THEN 0 ELSE 1),
                              !.fexecs = @ + (IF ok \/ th[t].bad THEN 0 ELSE 1)]
    /\ UNCHANGED <<run, st, left, nleft, tot, begun>>

\* Threads of the test body perform n checks together, f of which fail
Burst(t, e, n, f) ==
    /\ Busy(t, e) /\ th[t].in = "in"
    /\ th' = [th EXCEPT ![t].checks = @ + n, ![t].fchecks = @ + f, ![t].exp = @ + f, ![t].bad = @ \/ f > 0]
    /\ truth' = [truth EXCEPT !.checks = @ + n, !.fchecks = @ + f,
                              !.fexecs = @ + (IF f = 0 \/ th[t].bad THEN 0 ELSE 1)]
    /\ UNCHANGED <<run, st, left, nleft, tot, begun>>

\* The test body is left, normally or by an exception
Exit(t, e, thrown) ==
    /\ Busy(t, e) /\ th[t].in = "in"
    /\ th' = [th EXCEPT ![t].in = "left",
                        ![t].exp = @ + (IF thrown THEN 1 ELSE 0),
                        ![t].bad = @ \/ thrown]
    /\ truth' = [truth EXCEPT !.fexecs = @ + (IF ~thrown \/ th[t].bad THEN 0 ELSE 1)]
    /\ UNCHANGED <<run, st, left, nleft, tot, begun>>

\* A failure is reported
Fail(t, e) ==
    /\ Busy(t, e) /\ th[t].rep < th[t].exp
    /\ th' = [th EXCEPT ![t].rep = @ + 1]
    /\ UNCHANGED <<run, st, left, nleft, tot, truth, begun>>

End(t, e) ==
    /\ Busy(t, e) /\ th[t].in = "left" /\ th[t].rep = th[t].exp
    /\ th' = [th EXCEPT ![t].s = "idle", ![t].cur = None, ![t].in = "out",
                        ![t].fexecs = @ + (IF th[t].bad THEN 1 ELSE 0)]
    /\ UNCHANGED <<run, st, left, nleft, tot, truth, begun>>

ThreadEnd(t) ==
    /\ t \in DOMAIN th /\ th[t].s = "idle" /\ left = <<>>
    /\ nleft # <<>> => ~Alone(t)
    /\ th' = [th EXCEPT ![t].s = "ended"]
    /\ tot' = [checks |-> tot.checks + th[t].checks, fchecks |-> tot.fchecks + th[t].fchecks,
               fexecs |-> tot.fexecs + th[t].fexecs]
    /\ UNCHANGED <<run, st, left, nleft, truth, begun>>

RootEnd ==
    /\ st = "running" /\ \A t \in DOMAIN th : th[t].s = "ended"
    /\ st' = "ended" /\ UNCHANGED <<run, left, nleft, th, tot, truth, begun>>

Return(ok) ==
    /\ st = "ended" /\ ok = (tot.fexecs = 0)
    /\ st' = "done" /\ UNCHANGED <<run, left, nleft, th, tot, truth, begun>>

------------------------------------------------------------------------------
\* The summary a reporter is given at the end
Disabled(r) == Cardinality({i \in DOMAIN r.tests : ~r.tests[i].en})
Excluded(r) == Cardinality({i \in DOMAIN r.tests : r.tests[i].en /\ ~r.tests[i].inc})

AllExecs(r) == LET s == Execs(Selected(r.tests), r.reps) IN {s[i] : i \in DOMAIN s}

\* Properties
EveryExecutedOnce == st \in {"ended", "done"} => begun = AllExecs(run)
CountsAreTrue == st \in {"ended", "done"} => tot = truth
NonconcurAlone ==
    \A t \in DOMAIN th : (th[t].s = "busy" /\ th[t].non) => \A u \in Others(t) : th[u].s = "ended"
NotAllowedIsNonconcur ==
    \A t \in DOMAIN th : (th[t].s = "busy" /\ ~run.tests[th[t].cur.x].c) => th[t].non
NoDoubleExecution ==
    \A t, u \in DOMAIN th : (t # u /\ th[t].s = "busy" /\ th[u].s = "busy") => th[t].cur # th[u].cur

------------------------------------------------------------------------------
\* Bounded exploration
CONSTANTS MaxTests, MaxReq, MaxReps, Outcomes
VARIABLES hist

TestRecs == {[c |-> c, en |-> TRUE, inc |-> TRUE] : c \in BOOLEAN} \cup
            {[c |-> TRUE, en |-> FALSE, inc |-> TRUE], [c |-> TRUE, en |-> TRUE, inc |-> FALSE]}
Configs == {[tests |-> ts, reps |-> k, req |-> q, shuffle |-> FALSE] :
              ts \in UNION {[1..n -> TestRecs] : n \in 0..MaxTests}, k \in 0..MaxReps, q \in 1..MaxReq}

\* Executions that fail: of each outcome class one representative
BodyStep(t) ==
    LET e == th[t].cur IN
    \/ Enter(t, e)
    \/ /\ "check" \in Outcomes /\ th[t].exp < 1 /\ th[t].checks + th[t].fchecks < 2
       /\ \E ok \in BOOLEAN : Check(t, e, ok)
    \/ \E thr \in (IF "throw" \in Outcomes THEN BOOLEAN ELSE {FALSE}) : Exit(t, e, thr)
    \/ Fail(t, e)

MCInit == Init /\ hist = <<>>
Sched ==
    \/ \E t \in DOMAIN th : /\ \/ ThreadBegin(t) \/ ThreadEnd(t) \/ BodyStep(t)
                               \/ \E e \in AllExecs(run) : BeginConcur(t, e) \/ BeginNonconcur(t, e)
                            /\ UNCHANGED hist
    \/ \E t \in DOMAIN th : End(t, th[t].cur) /\ hist' = Append(hist, th[t].cur)
    \/ RootEnd /\ UNCHANGED hist
    \/ \E ok \in BOOLEAN : Return(ok) /\ UNCHANGED hist
MCNext == \/ st = "idle" /\ (\E r \in Configs : Start(r)) /\ UNCHANGED hist
          \/ st \in {"running", "ended"} /\ Sched
MCSpec == MCInit /\ [][MCNext]_<<vars, hist>> /\ WF_<<vars, hist>>(st # "idle" /\ MCNext)
HideHist == vars
Terminates == (st = "running") ~> (st = "done")

=============================================================================
