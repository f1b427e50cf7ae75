--------------------------- MODULE FileHandlesMC ---------------------------
(* Handles on small files, where reading and writing are made of exchanges   *)
(* with the system of which any may be short, interrupted or in error.       *)
EXTENDS FileHandles
CONSTANTS MaxLen, MaxPos, Ask, Printing
VARIABLES op,      \* the operation under way: [h, kind, data or size, got, start, before]
          hist
mcvars == <<files, hs, op, hist>>
None == [kind |-> "none"]
Bytes(h, n) == [i \in 1..n |-> 10 * h + i]
Combos == { c \in {"r", "rw"} \X {"never", "allow", "must"} \X {"normal", "trunc", "app"} : MayAsk(c[1], c[2], c[3]) }
Rec(r) == hist' = IF Printing THEN Append(hist, r) ELSE hist
MCInit == FInit /\ op = None /\ hist = <<>>
MOpen(h, p, c) ==
    /\ op = None
    /\ IF OpenOutcome(p, c[2]) = "ok" THEN Open(h, p, c[1], c[2], c[3]) ELSE UNCHANGED fvars
    /\ Rec([o |-> "open", h |-> h, path |-> p, access |-> c[1], create |-> c[2], write |-> c[3]]) /\ UNCHANGED op
MClose(h) == op = None /\ IsOpen(h) /\ Close(h) /\ Rec([o |-> "close", h |-> h]) /\ UNCHANGED op
MMove(g, h) == op = None /\ g # h /\ IsOpen(g) /\ Move(g, h) /\ Rec([o |-> "move", g |-> g, h |-> h]) /\ UNCHANGED op
MBegin(h, kind, n) ==
    /\ op = None /\ IsOpen(h)
    /\ op' = [kind |-> kind, h |-> h, want |-> n, got |-> 0, data |-> <<>>, start |-> hs[h].pos, before |-> Contents(h), at |-> WriteAt(h)]
    /\ UNCHANGED <<files, hs, hist>>
\* An exchange; k bytes go through, or it is interrupted (-1), or it fails (-2)
MStep(k) ==
    /\ op.kind \in {"read", "write"} /\ op.got < op.want
    /\ op.kind = "write" => hs[op.h].rw
    /\ k <= op.want - op.got
    /\ \/ k = -1 /\ UNCHANGED <<files, hs, op, hist>>
       \/ /\ k = -2 /\ op' = [op EXCEPT !.kind = op.kind \o " failed"] /\ UNCHANGED <<files, hs, hist>>
       \/ /\ k >= 0 /\ op.kind = "read"
          /\ k <= Avail(op.h, op.want - op.got) /\ (k = 0 => Avail(op.h, 1) = 0)
          /\ op' = [op EXCEPT !.got = @ + k, !.data = @ \o Part(Contents(op.h), hs[op.h].pos, k),
                              !.kind = IF k = 0 THEN "read done" ELSE @]
          /\ SysRead(op.h, k) /\ UNCHANGED hist
       \/ /\ k > 0 /\ op.kind = "write"
          /\ op' = [op EXCEPT !.got = @ + k]
          /\ SysWrite(op.h, SubSeq(Bytes(op.h, op.want), op.got + 1, op.got + k)) /\ UNCHANGED hist
MEnd ==
    /\ op.kind # "none"
    /\ \/ op.got = op.want \/ op.kind \in {"read done", "read failed", "write failed"} \/ (op.kind = "write" /\ ~hs[op.h].rw)
    /\ op' = None /\ UNCHANGED <<files, hs>>
    /\ Rec([o |-> IF op.kind \in {"read", "read done", "read failed"} THEN "read" ELSE "write", h |-> op.h, n |-> op.want])
MSeek(h, off, w) == op = None /\ IsOpen(h) /\ SeekTo(h, off, w) \in 0..MaxPos /\ Seek(h, off, w) /\ Rec([o |-> "seek", h |-> h, off |-> off, whence |-> w]) /\ UNCHANGED op
MLock(h, kind) ==
    /\ op = None /\ IsOpen(h) /\ hs[h].lock = "no"
    /\ IF CanLock(h, kind) THEN Lock(h, kind) ELSE UNCHANGED fvars
    /\ Rec([o |-> "lock", h |-> h, kind |-> kind]) /\ UNCHANGED op
MUnlock(h) == op = None /\ IsOpen(h) /\ Unlock(h) /\ Rec([o |-> "unlock", h |-> h]) /\ UNCHANGED op
MCNext ==
    \/ \E h \in Handles, p \in Paths, c \in Combos : MOpen(h, p, c)
    \/ \E h \in Handles : MClose(h) \/ MUnlock(h) \/ \E g \in Handles : MMove(g, h)
    \/ \E h \in Handles, n \in Ask : MBegin(h, "read", n) \/ MBegin(h, "write", n)
    \/ op # None /\ \E k \in -2..2 : MStep(k)
    \/ MEnd
    \/ \E h \in Handles, off \in -1..2, w \in {"set", "cur", "end"} : MSeek(h, off, w)
    \/ \E h \in Handles, kind \in {"shared", "exclusive"} : MLock(h, kind)
MCSpec == MCInit /\ [][MCNext]_mcvars
Small == \A p \in Paths : Len(Data(p)) <= MaxLen
Hide == <<files, hs, op>>

\* What was read is what was there, and what was written is there, nothing else
ReadRight == op.kind \in {"read", "read done", "read failed"} =>
                 /\ op.data = Part(op.before, op.start, op.got) /\ Contents(op.h) = op.before
                 /\ op.kind = "read done" /\ op.got < op.want => op.start + op.got >= Len(op.before)
WriteRight == op.kind \in {"write", "write failed"} =>
                 Contents(op.h) = Put(op.before, op.at, SubSeq(Bytes(op.h, op.want), 1, op.got))
PositionRight == op.kind # "none" => hs[op.h].pos = (IF op.got = 0 THEN op.start ELSE IF op.kind \in {"write", "write failed"} THEN op.at + op.got ELSE op.start + op.got)
Sane == \A h \in Handles : IsOpen(h) => ~files[hs[h].path].missing /\ hs[h].pos >= 0
ReadOnlyKeeps == [][(\E p \in Paths : files'[p] # files[p] /\ ~files[p].missing) =>
                    (op.kind = "write" /\ hs[op.h].rw) \/ (op = None /\ \E h \in Handles : hs'[h].rw /\ hs'[h].path # "" /\ files'[hs'[h].path] = File(<<>>))]_mcvars
OwnPosition == [][\A h \in Handles : (op # None /\ h # op.h) => hs'[h].pos = hs[h].pos]_mcvars
Emit == Printing => (Len(hist) < 14 \/ PrintT("SCRIPT " \o ToJson(hist)))
Short == Len(hist) <= 14
=============================================================================
