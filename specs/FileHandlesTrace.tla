-------------------------- MODULE FileHandlesTrace --------------------------
(* Recorded operations on open files. Ev.sys is what each exchange with the  *)
(* system came to: a number of bytes, -1 (interrupted), or -2 (an error).    *)
EXTENDS FileHandles, TraceBase
TraceInit == l = 1 /\ FInit

Opens == [h \in 1..Cardinality(Handles) |-> hs'[h].path # ""]
Now == Match("open handles", Ev.open, Opens)
Left(p) == Match("contents", Ev.content, files'[p])

TReset == IsEvent("reset") /\ hs' = [h \in Handles |-> Closed] /\ files' = [p \in Paths |-> Ev.files[p]]
TOpen ==
    /\ IsEvent("open")
    /\ LET c == IF Ev.mode = "" THEN <<Ev.access, Ev.create, Ev.write>> ELSE Major(Ev.mode)
       IN IF Ev.path = "dir" THEN Match("outcome", Ev.r, "directory") /\ Close(Ev.h)
          ELSE /\ Match("outcome", Ev.r, OpenOutcome(Ev.path, c[2]))
               /\ IF Ev.r = "ok" THEN Open(Ev.h, Ev.path, c[1], c[2], c[3]) ELSE Close(Ev.h)
               /\ Left(Ev.path)
    /\ Now
TClose == IsEvent("close") /\ Close(Ev.h) /\ Now
TMove == IsEvent("move") /\ Move(Ev.g, Ev.h) /\ Now

\* How far the exchanges got: [got, fin, bad], where fin says that no more are to follow. Forms:
\* "all" goes on until everything is done or the end, "some" until one goes through, "once" does one only.
Run(sys, n, form, write) ==
    LET F(s, k) ==
            IF s.fin # "" THEN [s EXCEPT !.bad = TRUE]
            ELSE IF k = -1 THEN (IF form = "once" THEN [s EXCEPT !.fin = "interrupted"] ELSE s)
            ELSE IF k = -2 THEN [s EXCEPT !.fin = "error"]
            ELSE [s EXCEPT !.got = @ + k, !.fin = IF form # "all" \/ s.got + k = n \/ (k = 0 /\ ~write) THEN "ok" ELSE ""]
        e == FoldLeft(F, [got |-> 0, fin |-> "", bad |-> FALSE], sys)
    IN IF n = 0 /\ sys = <<>> THEN [e EXCEPT !.fin = "ok"] ELSE e
\* What the caller is told: on success, or where all was tried, how much was done; otherwise nothing
Told(e, form) == IF e.fin = "ok" \/ form = "all" THEN e.got ELSE -1
Report(e, form) ==
    /\ Match("exchanges with the system fit", e.bad \/ e.fin = "", FALSE)
    /\ Match("outcome", Ev.r, e.fin)
    /\ (IF Ev.n = -2 THEN TRUE ELSE Match("number of bytes", Ev.n, Told(e, form)))
TRead ==
    /\ IsEvent("read")
    /\ LET e == Run(Ev.sys, Ev.size, Ev.form, FALSE) IN
       /\ Report(e, Ev.form)
       /\ Match("bytes", Ev.data, Part(Contents(Ev.h), hs[Ev.h].pos, IF Ev.r = "ok" \/ Ev.form = "all" THEN e.got ELSE 0))
       \* It only ends early at the end
       /\ IF e.fin = "ok" /\ Ev.form = "all" THEN Match("read all there is", e.got, Avail(Ev.h, Ev.size)) ELSE TRUE
       /\ SysRead(Ev.h, e.got)
    /\ Now
TWrite ==
    /\ IsEvent("write")
    /\ LET e == Run(Ev.sys, Len(Ev.data), Ev.form, TRUE) IN
       /\ Report(e, Ev.form)
       /\ Match("writing allowed", ~hs[Ev.h].rw /\ e.fin = "ok", FALSE)
       /\ SysWrite(Ev.h, SubSeq(Ev.data, 1, e.got))
    /\ Left(hs[Ev.h].path)
    /\ Now
TSeek ==
    /\ IsEvent("seek")
    /\ LET to == SeekTo(Ev.h, Ev.off, Ev.whence)
       IN IF to < 0 THEN Match("result", Ev.r, -1) /\ UNCHANGED fvars
          ELSE Match("result", Ev.r, to) /\ Seek(Ev.h, Ev.off, Ev.whence)
    /\ Now
TLock ==
    /\ IsEvent("lock")
    /\ IF Ev.blocking
       THEN \* Those that are in the way give way after the attempt
            /\ Match("locked at once", Ev.r, CanLock(Ev.h, Ev.kind))
            /\ hs' = [g \in Handles |-> IF g = Ev.h THEN [hs[g] EXCEPT !.lock = Ev.kind]
                                        ELSE IF g \in ToSet(Ev.gave) THEN [hs[g] EXCEPT !.lock = "no"] ELSE hs[g]]
            /\ UNCHANGED files
            /\ Match("exclusive", Exclusive', TRUE)
       ELSE /\ Match("locked", Ev.r, CanLock(Ev.h, Ev.kind))
            /\ IF Ev.r THEN Lock(Ev.h, Ev.kind) ELSE UNCHANGED fvars
    /\ Now
TUnlock == IsEvent("unlock") /\ Unlock(Ev.h) /\ Now
TLoad ==
    /\ IsEvent("load")
    /\ LET error == -2 \in ToSet(Ev.sys) IN
       /\ Match("outcome", Ev.r, IF Ev.path = "dir" THEN "directory" ELSE IF files[Ev.path].missing THEN "missing" ELSE IF error THEN "error" ELSE "ok")
       /\ (IF Ev.r = "ok" THEN Match("data", Ev.data, Data(Ev.path)) ELSE TRUE)
    /\ UNCHANGED fvars
TSave ==
    /\ IsEvent("save")
    /\ LET e == Run(Ev.sys, Len(Ev.data), "all", TRUE) IN
       /\ Match("outcome", Ev.r, e.fin)
       /\ files' = [files EXCEPT ![Ev.path] = File(SubSeq(Ev.data, 1, e.got))]
    /\ UNCHANGED hs
    /\ Left(Ev.path)
TTouch ==
    /\ IsEvent("touch")
    /\ Match("outcome", Ev.r, "ok") /\ Match("modified now", Ev.fresh, TRUE)
    /\ files' = IF files[Ev.path].missing THEN [files EXCEPT ![Ev.path] = File(<<>>)] ELSE files
    /\ UNCHANGED hs
    /\ Left(Ev.path)
TraceNext == TReset \/ TOpen \/ TClose \/ TMove \/ TRead \/ TWrite \/ TSeek \/ TLock \/ TUnlock \/ TLoad \/ TSave \/ TTouch
TraceSpec == TraceInit /\ [][TraceNext]_<<l, files, hs>>
=============================================================================
