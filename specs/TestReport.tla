----------------------------- MODULE TestReport -----------------------------
(* What is reported about a run of tests (check/noinst/thread_context_impl.cpp,*)
(* check/simple_reporter.cpp, check/xml_reporter.cpp, check/test_trail.cpp).   *)
(* A run is described by `setup`:                                              *)
(*   tests    Seq([name, path, line]), in the order in which they are numbered *)
(*   reps     number of repetitions                                            *)
(*   threads  number of test threads that are used                             *)
(*   progress whether the beginning of tests is reported                       *)
(*   files    whether each thread logs to a file of its own                    *)
(*   mapper   whether the paths of source files are mapped (to "M/" and path)  *)
(*   suite    name of the test suite in the XML report                         *)
(*   disabled, excluded: number of tests that are not executed                 *)
(*   inner    what is to be seen of what tests log: "off", "warn" or "all"     *)
(* and by what happens in each execution (a test and the number of the         *)
(* repetition): a sequence of [kind, path, line, trail, form, macro, args,     *)
(* vals, index], where kind is                                                 *)
(*   "check"   a check fails (at path and line, below the trail)               *)
(*   "throw"   the test is left by an exception                                *)
(*   "log"     the test itself logs something                                  *)
(* and the rest says what kind of check it is, with which arguments, as they   *)
(* are in the source code, and which values they have.                         *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC

Num(n, one, many) == ToString(n) \o " " \o (IF n = 1 THEN one ELSE many)
Fill(n, width, c) == LET s == ToString(n) IN FoldLeft(LAMBDA a, i : IF i > width - Len(s) THEN a ELSE c \o a, s, [i \in 1..width |-> i])
Pad(n, width) == Fill(n, width, "0")
Width(n) == Len(ToString(n))

Mapped(setup, path) == IF setup.mapper THEN "M/" \o path ELSE path
Place(setup, path, line) == Mapped(setup, path) \o ":" \o ToString(line) \o ": "
Name(setup, x, rep) == setup.tests[x].name \o (IF setup.reps > 1 THEN "#" \o ToString(rep) ELSE "")
Trail(t) == FoldLeft(LAMBDA a, s : a \o s \o ": ", "", t)

\* What is said about a failure
List(s) == FoldLeft(LAMBDA a, i : a \o (IF i = 1 THEN "" ELSE ", ") \o s[i], "", [i \in DOMAIN s |-> i])
Message(f) ==
    LET call == f.macro \o "(" \o List(f.args) \o ") failed"
        at == call \o ": Mismatch at index " \o ToString(f.index) \o ": "
    IN CASE f.form = "cond" -> call
         [] f.form = "special" -> call \o " with (" \o List(f.vals) \o ")"
         [] f.form = "nothrown" -> call \o ": Did not throw"
         [] f.form = "badthrown" -> call \o ": Did throw, but condition failed"
         [] f.form = "threw" -> call \o ": Did throw " \o (IF f.vals = <<>> THEN "exception of unknown type" ELSE f.vals[1] \o ": " \o f.vals[2])
         [] f.form = "mismatch" -> at \o f.vals[1] \o " vs " \o f.vals[2]
         [] f.form = "longer" -> at \o "Extra elements in first sequence (starting with " \o f.vals[1] \o ")"
         [] f.form = "shorter" -> at \o "Extra elements in second sequence (starting with " \o f.vals[1] \o ")"
         [] f.form = "plain" -> f.args[1]
         [] f.form = "exception" -> "Unhandled exception " \o f.vals[1] \o ": " \o f.vals[2]
         [] f.form = "unknown" -> "Unhandled exception of unknown type"
         [] f.form = "error" -> "ERROR: " \o f.args[1]
         [] f.form = "warn" -> "WARNING: " \o f.args[1]
         [] f.form \in {"info", "detail"} -> f.args[1]
\* Whether what a test logs is to be seen
Seen(setup, f) == f.kind # "log" \/ setup.inner = "all" \/ (setup.inner = "warn" /\ f.form \in {"error", "warn"})

\* Where a failure is, according to the report
PathOf(setup, x, f) == IF f.kind = "check" THEN f.path ELSE setup.tests[x].path
LineOf(setup, x, f) == IF f.kind = "check" THEN f.line ELSE setup.tests[x].line
Failure(setup, x, f) == [path |-> Mapped(setup, PathOf(setup, x, f)), line |-> LineOf(setup, x, f), msg |-> Message(f)]
Failures(setup, x, what) ==
    LET fs == SelectSeq(what, LAMBDA f : f.kind # "log") IN [i \in DOMAIN fs |-> Failure(setup, x, fs[i])]

\* ---- The text report
FailureLine(setup, x, rep, f) ==
    Place(setup, PathOf(setup, x, f), LineOf(setup, x, f)) \o Name(setup, x, rep) \o ": " \o
        (IF f.kind = "check" THEN Trail(f.trail) ELSE "") \o "ERROR: " \o Message(f)
\* A line that a test logs itself
LogLine(f) == "Inner: " \o Trail(f.trail) \o Message(f)
ExecLines(setup, x, rep, what) ==
    (IF setup.progress THEN << Place(setup, setup.tests[x].path, setup.tests[x].line) \o Name(setup, x, rep) \o ": Started" >> ELSE <<>>) \o
    FlattenSeq([i \in DOMAIN what |-> IF ~Seen(setup, what[i]) THEN <<>> ELSE << IF what[i].kind = "log" THEN LogLine(what[i]) ELSE FailureLine(setup, x, rep, what[i]) >>])
ThreadTag(setup, t) ==
    IF setup.threads = 1 \/ setup.files THEN "" ELSE "Thread[" \o Pad(t, Width(setup.threads)) \o "]: "
\* execs: Seq([x, rep, what]) performed by the thread, in order
ThreadLines(setup, t, execs) ==
    LET body == (IF setup.files THEN << "Beginning of test thread" >> ELSE <<>>) \o
                FlattenSeq([i \in DOMAIN execs |-> ExecLines(setup, execs[i].x, execs[i].rep, execs[i].what)]) \o
                (IF setup.files \/ (setup.progress /\ setup.threads > 1) THEN << "End of test thread" >> ELSE <<>>)
    IN [i \in DOMAIN body |-> ThreadTag(setup, t) \o body[i]]
Head_(setup, paths) ==
    << "Executing " \o Num(Len(setup.tests), "test case", "test cases") \o
       (IF setup.reps = 1 THEN "" ELSE " " \o ToString(setup.reps) \o " times (" \o
            Num(Len(setup.tests) * setup.reps, "test case execution", "test case executions") \o ")") \o
       " using " \o Num(setup.threads, "test thread", "test threads") >> \o
    (IF setup.files THEN [i \in 1..setup.threads |-> "Test thread " \o Fill(i, Width(setup.threads), " ") \o " is logging to " \o paths[i]] ELSE <<>>)
\* sum: [execs, failed, checks, failures]; the line with the time is left out
Tail_(setup, sum) ==
    << IF sum.failed = 0
       THEN "Success: " \o
            (IF sum.execs = 1 THEN "The " \o (IF setup.reps = 1 THEN "test case" ELSE "test case execution")
             ELSE "All " \o Num(sum.execs, "test case", IF setup.reps = 1 THEN "test cases" ELSE "test case executions")) \o
            " passed (" \o Num(sum.checks, "check", "checks") \o ")"
       ELSE "FAILURE: " \o ToString(sum.failed) \o " out of " \o
            (IF setup.reps = 1 THEN Num(sum.execs, "test case", "test cases") ELSE Num(sum.execs, "test case execution", "test case executions")) \o
            " failed (" \o ToString(sum.failures) \o " out of " \o Num(sum.checks, "check", "checks") \o " failed)" >> \o
    (IF setup.excluded = 0 THEN <<>>
     ELSE << "Note: " \o (IF setup.excluded = 1 THEN "One test case was" ELSE ToString(setup.excluded) \o " test cases were") \o " excluded!" >>)

\* ---- The XML report
Entities == << <<"&", "&amp;">>, <<"<", "&lt;">>, <<">", "&gt;">>, <<"'", "&apos;">>, <<"\"", "&quot;">> >>
Char(s, i) == SubSeq(s, i, i)
EscapeChar(c) ==
    LET k == { k \in DOMAIN Entities : Entities[k][1] = c } IN IF k = {} THEN c ELSE Entities[CHOOSE i \in k : TRUE][2]
Escape(s) == FoldLeft(LAMBDA a, i : a \o EscapeChar(Char(s, i)), "", [i \in 1..Len(s) |-> i])
\* What an attribute value stands for; ok says whether it is one
Unescape(s) ==
    LET F(a, i) ==
            LET c == Char(s, i)
            IN IF a.ent # "" THEN
                   LET e == a.ent \o c
                       k == { k \in DOMAIN Entities : Entities[k][2] = e }
                   IN IF c # ";" THEN [a EXCEPT !.ent = e]
                      ELSE IF k = {} THEN [a EXCEPT !.ok = FALSE, !.ent = ""]
                      ELSE [a EXCEPT !.ent = "", !.out = @ \o Entities[CHOOSE j \in k : TRUE][1]]
               ELSE IF c = "&" THEN [a EXCEPT !.ent = c]
               ELSE IF c = "<" \/ c = "\"" THEN [a EXCEPT !.ok = FALSE]
               ELSE [a EXCEPT !.out = @ \o c]
        r == FoldLeft(F, [out |-> "", ent |-> "", ok |-> TRUE], [i \in 1..Len(s) |-> i])
    IN IF r.ok /\ r.ent = "" THEN r.out ELSE "malformed: " \o s
XmlFailure(f) == f.path \o "(" \o ToString(f.line) \o ") : " \o f.msg
\* what: [x \in tests |-> [rep \in 1..reps |-> what happened]]
XmlTests(setup, what) ==
    FlattenSeq([x \in DOMAIN setup.tests |-> [rep \in 1..setup.reps |->
        [suite |-> setup.suite, name |-> Name(setup, x, rep),
         failures |-> LET f == Failures(setup, x, what[x][rep]) IN [i \in DOMAIN f |-> XmlFailure(f[i])]]]])
=============================================================================
