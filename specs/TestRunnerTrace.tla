-------------------------- MODULE TestRunnerTrace --------------------------
EXTENDS TestRunner, TraceBase

VARIABLES seeds   \* seed value observed per <<seed id, effective repetition>>
tvars == <<vars, hist, l, seeds>>

Abs(n) == IF n < 0 THEN -n ELSE n
\* Outcome of the check macros on integers
Eval(op, a, b, c) ==
    CASE op = "cond" -> a = 1
      [] op = "not" -> a # 1
      [] op = "eq" -> a = b
      [] op = "ne" -> a # b
      [] op = "lt" -> a < b
      [] op = "le" -> a <= b
      [] op = "nlt" -> ~(a < b)
      [] op = "nle" -> ~(a <= b)
      [] op = "gt" -> a > b
      [] op = "ge" -> a >= b
      [] op = "ngt" -> ~(a > b)
      [] op = "nge" -> ~(a >= b)
      [] op = "dlt" -> Abs(a - b) < c
      [] op = "dle" -> Abs(a - b) <= c
      [] op = "dnlt" -> ~(Abs(a - b) < c)
      [] op = "dnle" -> ~(Abs(a - b) <= c)
      [] op = "dgt" -> Abs(a - b) > c
      [] op = "dge" -> Abs(a - b) >= c
      [] op = "dngt" -> ~(Abs(a - b) > c)
      [] op = "dnge" -> ~(Abs(a - b) >= c)
      [] op = "btw" -> b <= a /\ a <= c
      [] op = "nbtw" -> ~(b <= a /\ a <= c)
      [] op = "throw" -> a = 1        \* CHECK_THROW where the expression throws iff a = 1
      [] op = "throwex" -> a = 1 /\ b = 1
      [] op = "throwany" -> a = 1
      [] op = "nothrow" -> a # 1
      [] op = "cmp" -> a = 2 * b

Exec == [x |-> Ev.x, rep |-> Ev.rep]
T == Ev.t + 1
\* The thread that is executing an execution
ThreadOf(e) == CHOOSE t \in DOMAIN th : th[t].s = "busy" /\ th[t].cur = e
IsExecuting(e) == \E t \in DOMAIN th : th[t].s = "busy" /\ th[t].cur = e
Position(x) == CHOOSE i \in DOMAIN Selected(run.tests) : Selected(run.tests)[i] = x

Same == UNCHANGED <<hist, seeds>>

EffRep(rep) == IF run.override # 0 THEN run.override ELSE rep
Key == <<run.seedid, EffRep(Ev.rep)>>

TraceInit == Init /\ hist = <<>> /\ l = 1 /\ seeds = <<>>

TraceNext ==
    \/ /\ IsEvent("reset")
       /\ Start([tests |-> Ev.tests, reps |-> Ev.reps, req |-> Ev.req, shuffle |-> Ev.shuffle,
                 seedid |-> Ev.seedid, override |-> Ev.override]) /\ Same
    \/ /\ IsEvent("root_begin") /\ st = "running" /\ begun = {} /\ \A t \in DOMAIN th : th[t].s = "new"
       /\ Match("threads", Ev.threads, Cardinality(DOMAIN th))
       /\ Match("tests", Ev.tests, Len(Selected(run.tests)))
       /\ Match("execs", Ev.execs, Cardinality(AllExecs(run)))
       /\ Match("reps", Ev.reps, run.reps)
       /\ UNCHANGED vars /\ Same
    \/ IsEvent("thread_begin") /\ ThreadBegin(T) /\ Same
    \/ /\ IsEvent("begin") /\ (BeginConcur(T, Exec) \/ BeginNonconcur(T, Exec))
       /\ Match("test index", Ev.ix, Position(Ev.x) - 1) /\ Same
    \/ /\ IsEvent("enter") /\ Enter(T, Exec)
       /\ th[T].non => Match("on calling thread", Ev.main, TRUE)
       /\ IF Key \in DOMAIN seeds THEN Match("seed", Ev.seed, seeds[Key]) /\ UNCHANGED seeds
          ELSE /\ \A k \in DOMAIN seeds : seeds[k] # Ev.seed
               /\ seeds' = seeds @@ (Key :> Ev.seed)
       /\ UNCHANGED hist
    \/ /\ IsEvent("check") /\ IsExecuting(Exec)
       /\ Check(ThreadOf(Exec), Exec, Eval(Ev.op, Ev.a, Ev.b, Ev.c)) /\ Same
    \/ /\ IsEvent("ret") /\ Match("result of check", Ev.r, Eval(Ev.op, Ev.a, Ev.b, Ev.c))
       /\ UNCHANGED vars /\ Same
    \/ IsEvent("burst") /\ IsExecuting(Exec) /\ Burst(ThreadOf(Exec), Exec, Ev.n, Ev.f) /\ Same
    \/ IsEvent("exit") /\ IsExecuting(Exec) /\ Exit(ThreadOf(Exec), Exec, Ev.thrown) /\ Same
    \/ IsEvent("fail") /\ Fail(T, Exec) /\ Same
    \/ IsEvent("end") /\ End(T, Exec) /\ Same
    \/ IsEvent("thread_end") /\ ThreadEnd(T) /\ Same
    \/ /\ IsEvent("root_end") /\ RootEnd
       /\ Match("summary", Ev.summary,
                <<Disabled(run), Excluded(run), Len(Selected(run.tests)), Cardinality(AllExecs(run)),
                  tot.fexecs, tot.checks, tot.fchecks>>) /\ Same
    \/ IsEvent("return") /\ Match("result", Ev.ok, tot.fexecs = 0) /\ Return(Ev.ok) /\ Same

TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
