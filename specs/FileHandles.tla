---------------------------- MODULE FileHandles ----------------------------
(* Open files of archon::core::File: any number of handles on any number of  *)
(* files, each handle with a position of its own and possibly a lock.        *)
(* A file is a sequence of bytes, or Missing.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Paths, Handles
VARIABLES files,   \* path -> contents
          hs       \* handle -> Closed or [path, pos, rw, app, lock]
fvars == <<files, hs>>
Missing == [missing |-> TRUE, data |-> <<>>]
File(d) == [missing |-> FALSE, data |-> d]
Closed == [path |-> "", pos |-> 0, rw |-> FALSE, app |-> FALSE, lock |-> "no"]
IsOpen(h) == hs[h].path # ""
Data(p) == files[p].data
Contents(h) == Data(hs[h].path)

FInit == files = [p \in Paths |-> Missing] /\ hs = [h \in Handles |-> Closed]

Lo(a, b) == IF a < b THEN a ELSE b
Hi(a, b) == IF a > b THEN a ELSE b
Zeros(n) == [i \in 1..Hi(n, 0) |-> 0]
\* What is there at a position, at most n bytes
Part(d, pos, n) == SubSeq(d, pos + 1, Lo(Len(d), pos + n))
\* Contents after bytes are put at a position; a hole reads as zeros
Put(d, pos, b) ==
    IF b = <<>> THEN d
    ELSE SubSeq(d, 1, Lo(pos, Len(d))) \o Zeros(pos - Len(d)) \o b \o SubSeq(d, pos + Len(b) + 1, Len(d))

(* The outcome of opening: "ok", or why not. Access is "r" or "rw", create   *)
(* is "never", "allow" or "must", and write is "normal", "trunc" or "app".   *)
OpenOutcome(p, create) ==
    IF files[p].missing THEN (IF create = "never" THEN "missing" ELSE "ok")
    ELSE IF create = "must" THEN "exists" ELSE "ok"
MayAsk(access, create, write) ==
    /\ (access = "r") => (create = "never" /\ write = "normal")
    /\ ~(write = "trunc" /\ create = "must")
Major(mode) == CASE mode = "read" -> <<"r", "never", "normal">> [] mode = "update" -> <<"rw", "never", "normal">>
                 [] mode = "write" -> <<"rw", "allow", "trunc">> [] mode = "append" -> <<"rw", "allow", "app">>
Open(h, p, access, create, write) ==
    /\ OpenOutcome(p, create) = "ok"
    /\ hs' = [hs EXCEPT ![h] = [path |-> p, pos |-> 0, rw |-> access = "rw", app |-> write = "app", lock |-> "no"]]
    /\ files' = IF files[p].missing \/ write = "trunc" THEN [files EXCEPT ![p] = File(<<>>)] ELSE files
Close(h) == hs' = [hs EXCEPT ![h] = Closed] /\ UNCHANGED files
\* Handle h becomes what g was; what h was is closed
Move(g, h) == hs' = [hs EXCEPT ![h] = hs[g], ![g] = Closed] /\ UNCHANGED files

(* One exchange with the system: at most n bytes, of which k go through.     *)
SysRead(h, k) == hs' = [hs EXCEPT ![h].pos = @ + k] /\ UNCHANGED files
WriteAt(h) == IF hs[h].app THEN Len(Contents(h)) ELSE hs[h].pos
SysWrite(h, b) ==
    /\ files' = [files EXCEPT ![hs[h].path] = File(Put(@.data, WriteAt(h), b))]
    /\ hs' = IF b = <<>> THEN hs ELSE [hs EXCEPT ![h].pos = WriteAt(h) + Len(b)]
Avail(h, n) == Len(Part(Contents(h), hs[h].pos, n))

SeekTo(h, off, whence) ==
    CASE whence = "set" -> off [] whence = "cur" -> hs[h].pos + off [] whence = "end" -> Len(Contents(h)) + off
Seek(h, off, whence) == hs' = [hs EXCEPT ![h].pos = SeekTo(h, off, whence)] /\ UNCHANGED files

Others(h) == { g \in Handles \ { h } : hs[g].path = hs[h].path /\ hs[g].lock # "no" }
CanLock(h, kind) == \A g \in Others(h) : kind = "shared" /\ hs[g].lock = "shared"
Lock(h, kind) == CanLock(h, kind) /\ hs' = [hs EXCEPT ![h].lock = kind] /\ UNCHANGED files
Unlock(h) == hs' = [hs EXCEPT ![h].lock = "no"] /\ UNCHANGED files

Exclusive == \A g, h \in Handles : g # h /\ IsOpen(g) /\ hs[g].path = hs[h].path /\ hs[g].lock = "exclusive" => hs[h].lock = "no"
=============================================================================
