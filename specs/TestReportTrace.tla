-------------------------- MODULE TestReportTrace --------------------------
(* Recorded runs of tests: first what happened in each execution as the tests  *)
(* themselves know it, then what the reporters were told and what the text and *)
(* XML reports say.                                                            *)
EXTENDS TestReport, TraceBase
VARIABLES setup,   \* The run
          bags,    \* Executions that have inner threads, as <<x, rep>>
          on,      \* thread -> Seq([x, rep]) in the order of execution
          what,    \* x -> rep -> Seq(what happened)
          passed,  \* x -> rep -> number of checks that succeeded
          calls,   \* What the first reporter was last told
          told,    \* x -> rep -> Seq of failures that the reporters were told about
          line,    \* Number of lines of the text report seen so far: [where |-> number], 0 is the common log
          expected \* where -> Seq(line)
tvars == <<setup, bags, on, what, passed, calls, told, line, expected>>
NoCall == [k |-> 0]
TraceInit ==
    /\ setup = [tests |-> <<>>] /\ bags = {} /\ on = <<>> /\ what = <<>> /\ passed = <<>> /\ calls = NoCall /\ told = <<>> /\ line = <<>> /\ expected = <<>>
    /\ l = 1
Tests == DOMAIN setup.tests
PerExec(e, v) == [x \in DOMAIN e.setup.tests |-> [r \in 1..e.setup.reps |-> v]]
TReset ==
    /\ IsEvent("reset")
    /\ setup' = Ev.setup /\ bags' = {}
    /\ on' = [t \in 1..Ev.setup.threads |-> <<>>]
    /\ what' = PerExec(Ev, <<>>) /\ passed' = PerExec(Ev, 0) /\ told' = PerExec(Ev, <<>>)
    /\ calls' = NoCall /\ line' = <<>> /\ expected' = <<>>
TEnter == /\ IsEvent("enter")
          /\ on' = [on EXCEPT ![Ev.t] = Append(@, [x |-> Ev.x, rep |-> Ev.rep])]
          /\ Match("path of the test", Ev.path, Mapped(setup, setup.tests[Ev.x].path))
          /\ bags' = IF Ev.bag THEN bags \cup {<<Ev.x, Ev.rep>>} ELSE bags
          /\ UNCHANGED <<setup, what, passed, calls, told, line, expected>>
TDid == /\ IsEvent("did")
        /\ what' = [what EXCEPT ![Ev.x][Ev.rep] = Append(@, Ev.f)]
        /\ UNCHANGED <<setup, bags, on, passed, calls, told, line, expected>>
TPassed == /\ IsEvent("passed")
           /\ passed' = [passed EXCEPT ![Ev.x][Ev.rep] = @ + Ev.n]
           /\ UNCHANGED <<setup, bags, on, what, calls, told, line, expected>>
\* Each of the reporters that are driven together is told the same, in turn
TCall ==
    /\ IsEvent("call")
    /\ IF Ev.k = 1 THEN Match("reporter to be told", 1, calls.k + 1) /\ calls' = [k |-> 1, e |-> Ev.c]
       ELSE Match("reporter to be told", Ev.k, calls.k + 1) /\ Match("what it is told", Ev.c, calls.e) /\ calls' = NoCall
    /\ IF Ev.k = 1 /\ Ev.c.kind = "fail"
       THEN told' = [told EXCEPT ![Ev.c.x][Ev.c.rep] = Append(@, [path |-> Ev.c.mapped, line |-> Ev.c.line, msg |-> Ev.c.msg])]
            /\ Match("mapped path", Ev.c.mapped, Mapped(setup, Ev.c.path))
       ELSE UNCHANGED told
    /\ UNCHANGED <<setup, bags, on, what, passed, line, expected>>

Sum(f, S) == FoldLeft(LAMBDA a, k : a + f[k], 0, SetToSeq(S))
Pairs == { <<x, r>> : x \in Tests, r \in 1..setup.reps }
Summary ==
    [execs |-> Len(setup.tests) * setup.reps,
     failed |-> Cardinality({ p \in Pairs : \E i \in DOMAIN what[p[1]][p[2]] : what[p[1]][p[2]][i].kind # "log" }),
     failures |-> Sum([p \in Pairs |-> Len(SelectSeq(what[p[1]][p[2]], LAMBDA f : f.kind = "check"))], Pairs),
     checks |-> Sum([p \in Pairs |-> passed[p[1]][p[2]] + Len(SelectSeq(what[p[1]][p[2]], LAMBDA f : f.kind = "check"))], Pairs)]
OfThread(t, w) == ThreadLines(setup, t, [i \in DOMAIN on[t] |-> [x |-> on[t][i].x, rep |-> on[t][i].rep, what |-> w[on[t][i].x][on[t][i].rep]]])
\* The run is over: everything that happened has been told, and the reports follow
TRan ==
    /\ IsEvent("ran")
    /\ Match("ok", Ev.ok, Summary.failed = 0)
    /\ Match("reporter in turn", calls.k, 0)
    \* The failures of inner threads, which differ in their lines, can be told of in any order
    /\ \A p \in Pairs :
           LET f == Failures(setup, p[1], what[p[1]][p[2]])
           IN IF p \in bags THEN Match("number of failures told of", Len(told[p[1]][p[2]]), Len(f)) /\ Match("failures told of", ToSet(told[p[1]][p[2]]), ToSet(f))
              ELSE Match("failures told of", told[p[1]][p[2]], f)
    /\ what' = [x \in Tests |-> [r \in 1..setup.reps |-> IF <<x, r>> \notin bags THEN what[x][r]
                  ELSE [i \in DOMAIN what[x][r] |-> LET S == { j \in DOMAIN what[x][r] : what[x][r][j].line = told[x][r][i].line }
                                                   IN what[x][r][IF S = {} THEN i ELSE CHOOSE j \in S : TRUE]]]]
    /\ expected' = [head |-> Head_(setup, Ev.paths), tail |-> Tail_(setup, Summary), threads |-> [t \in DOMAIN on |-> OfThread(t, what')]]
    /\ line' = [head |-> 0, tail |-> 0, threads |-> [t \in DOMAIN on |-> 0]]
    /\ UNCHANGED <<setup, bags, on, passed, calls, told>>
\* Lines of threads are either in files, which follow one after the other, or in the common log between head and tail
Finished(t) == line.threads[t] = Len(expected.threads[t])
Next(t) == expected.threads[t][line.threads[t] + 1]
THead == /\ IsEvent("head")
         /\ IF line.head < Len(expected.head) THEN Match("line", Ev.text, expected.head[line.head + 1]) ELSE Match("further line", <<Ev.text>>, <<>>)
         /\ line' = [line EXCEPT !.head = @ + 1]
         /\ UNCHANGED <<setup, bags, on, what, passed, calls, told, expected>>
TLine ==
    /\ IsEvent("line")
    /\ Match("lines before", line.head, Len(expected.head))
    /\ IF \E t \in DOMAIN on : (IF setup.files THEN Ev.t = t ELSE Ev.t = 0) /\ ~Finished(t) /\ Ev.text = Next(t)
       THEN \E t \in DOMAIN on : (IF setup.files THEN Ev.t = t ELSE Ev.t = 0) /\ ~Finished(t) /\ Ev.text = Next(t) /\ line' = [line EXCEPT !.threads[t] = @ + 1]
       ELSE /\ Match("line", <<Ev.text>>, SetToSeq({ Next(t) : t \in { t \in DOMAIN on : (IF setup.files THEN Ev.t = t ELSE Ev.t = 0) /\ ~Finished(t) } }))
            /\ UNCHANGED line
    /\ UNCHANGED <<setup, bags, on, what, passed, calls, told, expected>>
TTail == /\ IsEvent("tail")
         /\ \A t \in DOMAIN on : Match("lines of thread", line.threads[t], Len(expected.threads[t]))
         /\ IF line.tail < Len(expected.tail) THEN Match("line", Ev.text, expected.tail[line.tail + 1]) ELSE Match("further line", <<Ev.text>>, <<>>)
         /\ line' = [line EXCEPT !.tail = @ + 1]
         /\ UNCHANGED <<setup, bags, on, what, passed, calls, told, expected>>
TXml ==
    /\ IsEvent("xml")
    /\ Match("lines after", line.tail, Len(expected.tail))
    /\ Match("well-formed", Ev.ok, TRUE)
    /\ LET s == Summary
       IN Match("numbers", Ev.numbers, <<ToString(s.execs), ToString(s.failed), ToString(s.checks), ToString(s.failures)>>)
    /\ LET e == XmlTests(setup, what)
           got == [i \in DOMAIN Ev.tests |-> [suite |-> Unescape(Ev.tests[i].suite), name |-> Unescape(Ev.tests[i].name),
                   failures |-> [j \in DOMAIN Ev.tests[i].failures |-> Unescape(Ev.tests[i].failures[j])]]]
       IN Match("tests of the XML report", got, e)
    /\ UNCHANGED tvars
TraceNext == TReset \/ TEnter \/ TDid \/ TPassed \/ TCall \/ TRan \/ THead \/ TLine \/ TTail \/ TXml
TraceSpec == TraceInit /\ [][TraceNext]_<<l, tvars>>
=============================================================================
