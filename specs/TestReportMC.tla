---------------------------- MODULE TestReportMC ----------------------------
(* The algorithm: threads take executions from a queue; under one lock, each   *)
(* failure is mapped (with a memory of the last foreign path), appended to the *)
(* common log and to what is kept per execution for the XML report, which is   *)
(* written at the end. Whatever the interleaving, the reports say what         *)
(* happened. Also: escaping is undone by unescaping.                           *)
EXTENDS TestReport, Json
CONSTANTS NumTests, Reps, NumThreads, MaxFail, Mapper, Texts, MaxText
VARIABLES queue, at, left, did, cache, log, xml, done
mcvars == <<queue, at, left, did, cache, log, xml, done>>
Threads == 1..NumThreads
Paths == <<"a", "b">>
Setup == [tests |-> [x \in 1..NumTests |-> [name |-> "T" \o ToString(x), path |-> Paths[1 + (x % 2)], line |-> x]],
          reps |-> Reps, threads |-> NumThreads, progress |-> FALSE, files |-> FALSE, mapper |-> Mapper, suite |-> "s", inner |-> "off",
          disabled |-> 0, excluded |-> 0]
None == <<0, 0>>
Things == { [kind |-> "check", path |-> p, line |-> 7, trail |-> <<>>, form |-> "cond", macro |-> "C", args |-> <<"m">>, vals |-> <<>>, index |-> 0] : p \in {"a", "b", "c", "d"} } \cup
          { [kind |-> "throw", path |-> "", line |-> 0, trail |-> <<>>, form |-> "exception", macro |-> "", args |-> <<>>, vals |-> <<"Boom", "e">>, index |-> 0] }
MCInit ==
    /\ queue = FlattenSeq([r \in 1..Reps |-> [x \in 1..NumTests |-> <<x, r>>]])
    /\ at = [t \in Threads |-> None] /\ left = [t \in Threads |-> 0]
    /\ did = [x \in 1..NumTests |-> [r \in 1..Reps |-> <<>>]]
    /\ cache = [t \in Threads |-> <<"", "">>]
    /\ log = <<>> /\ xml = <<>> /\ done = FALSE
Take(t) ==
    /\ at[t] = None /\ queue # <<>>
    /\ at' = [at EXCEPT ![t] = Head(queue)] /\ queue' = Tail(queue)
    /\ left' = [left EXCEPT ![t] = MaxFail]
    /\ UNCHANGED <<did, cache, log, xml, done>>
End(t) ==
    /\ at[t] # None
    /\ at' = [at EXCEPT ![t] = None]
    /\ left' = [left EXCEPT ![t] = 0]
    /\ UNCHANGED <<queue, did, cache, log, xml, done>>
Happens(t, f) ==
    /\ at[t] # None /\ left[t] > 0
    /\ LET x == at[t][1] r == at[t][2] own == Setup.tests[x].path
           foreign == f.kind = "check" /\ f.path # own
           c == IF foreign /\ cache[t][1] # f.path THEN <<f.path, Mapped(Setup, f.path)>> ELSE cache[t]
           path == IF foreign THEN c[2] ELSE Mapped(Setup, own)
           line == IF f.kind = "check" THEN f.line ELSE Setup.tests[x].line
       IN /\ did' = [did EXCEPT ![x][r] = Append(@, f)]
          /\ cache' = [cache EXCEPT ![t] = c]
          /\ log' = Append(log, <<t, x, r, path, line, Message(f)>>)
          /\ xml' = Append(xml, <<x, r, [path |-> path, line |-> line, msg |-> Message(f)]>>)
          /\ left' = [left EXCEPT ![t] = IF f.kind = "throw" THEN 0 ELSE @ - 1]
    /\ UNCHANGED <<queue, at, done>>
Finish == /\ queue = <<>> /\ \A t \in Threads : at[t] = None
          /\ done = FALSE /\ done' = TRUE /\ UNCHANGED <<queue, at, left, did, cache, log, xml>>
MCNext == Finish \/ \E t \in Threads : Take(t) \/ End(t) \/ \E f \in Things : Happens(t, f)
MCSpec == MCInit /\ [][MCNext]_mcvars
\* What is kept for an execution
Kept(x, r) == LET s == SelectSeq(xml, LAMBDA e : e[1] = x /\ e[2] = r) IN [i \in DOMAIN s |-> s[i][3]]
XmlTrue == \A x \in 1..NumTests, r \in 1..Reps : Kept(x, r) = Failures(Setup, x, did[x][r])
LogTrue == \A x \in 1..NumTests, r \in 1..Reps :
    LET s == SelectSeq(log, LAMBDA e : e[2] = x /\ e[3] = r)
        f == Failures(Setup, x, did[x][r])
    IN [i \in DOMAIN s |-> [path |-> s[i][4], line |-> s[i][5], msg |-> s[i][6]]] = f
Complete == Len(log) = Len(xml) /\ Len(xml) = FoldLeft(LAMBDA a, x : a + FoldLeft(LAMBDA b, r : b + Len(did[x][r]), 0, [r \in 1..Reps |-> r]), 0, [x \in 1..NumTests |-> x])

\* ---- Escaping
VARIABLE text
EscInit == text = ""
EscNext == Len(text) < MaxText /\ \E c \in Texts : text' = text \o c
EscSpec == /\ EscInit /\ queue = <<>> /\ at = <<>> /\ left = <<>> /\ did = <<>> /\ cache = <<>> /\ log = <<>> /\ xml = <<>> /\ done = FALSE
           /\ [][EscNext /\ UNCHANGED mcvars]_<<text, mcvars>>
RunSpec == MCInit /\ text = "" /\ [][MCNext /\ UNCHANGED text]_<<text, mcvars>>
EscUndone == Unescape(Escape(text)) = text
EscSafe == LET e == Escape(text) IN \A i \in 1..Len(e) : Char(e, i) \notin {"<", ">", "\"", "'"}
Emit == done' /\ ~done => PrintT("SCRIPT " \o ToJson([tests |-> NumTests, reps |-> Reps, threads |-> NumThreads, mapper |-> Mapper,
            order |-> [i \in DOMAIN log |-> [x |-> log[i][2], rep |-> log[i][3], path |->
                LET n == Cardinality({ j \in 1..i : log[j][2] = log[i][2] /\ log[j][3] = log[i][3] }) IN did[log[i][2]][log[i][3]][n].path]]]))
=============================================================================
