------------------------------ MODULE MemStream ------------------------------
(* Memory streams: fixed input ("in"), fixed output ("out") and growing output
   ("seed").  `mem` is the memory, `pos` the position, `size` the amount of
   contents, `bits` the stream state.  `sx` is the design: contents reached
   before the last seek, so that size = max(sx, pos).                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Chars
VARIABLES kind, mem, pos, size, sx, bits, hist
vars == <<kind, mem, pos, size, sx, bits>>

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Good == bits = {}
Failed == bits \cap {"fail", "bad"} # {}
Cap == Len(mem)
\* What an output operation makes of the state before it does anything
Sentry == IF "bad" \in bits THEN bits \cup {"fail"} ELSE bits

\* Start anew: m is the memory, n the amount of contents in it
Reset(k, m, n) == kind' = k /\ mem' = m /\ size' = n /\ sx' = n /\ pos' = 0 /\ bits' = {}

--------------------------------------------------------------------------
\* Input
Read(n) ==
    /\ kind = "in"
    /\ IF Good
       THEN /\ pos' = Min(pos + n, size)
            /\ bits' = IF pos + n > size THEN {"eof", "fail"} ELSE {}
       ELSE pos' = pos /\ bits' = bits \cup {"fail"}
    /\ UNCHANGED <<kind, mem, size, sx>>
ReadResult(n) == IF Good THEN SubSeq(mem, pos + 1, Min(pos + n, size)) ELSE <<>>
Peek ==
    /\ kind = "in" /\ UNCHANGED <<kind, mem, size, sx, pos>>
    /\ bits' = IF ~Good THEN bits \cup {"fail"} ELSE IF pos = size THEN {"eof"} ELSE {}
PeekResult == IF Good /\ pos < size THEN mem[pos + 1] ELSE -1
\* unget clears eofbit first, and puts the stream in a bad state at the beginning
Unget ==
    /\ kind = "in" /\ UNCHANGED <<kind, mem, size, sx>>
    /\ LET b == bits \ {"eof"} IN
       IF b # {} THEN pos' = pos /\ bits' = b \cup {"fail"}
       ELSE IF pos = 0 THEN pos' = pos /\ bits' = {"bad"}
       ELSE pos' = pos - 1 /\ bits' = b

--------------------------------------------------------------------------
\* Positions
Origin(from) == CASE from = "beg" -> 0 [] from = "cur" -> pos [] from = "end" -> size
Target(off, from) == Origin(from) + off
Limit == IF kind = "in" THEN size ELSE Cap
Valid(t) == 0 <= t /\ t <= Limit
Zeros(n) == [k \in 1..n |-> 0]
SeekTo(t) ==
    /\ pos' = t /\ UNCHANGED kind
    /\ IF kind = "in" THEN UNCHANGED <<mem, size, sx>>
       ELSE /\ size' = Max(size, t)
            /\ sx' = Max(sx, pos)
            /\ mem' = [k \in DOMAIN mem |-> IF k > size /\ k <= t THEN 0 ELSE mem[k]]
Seek(off, from) ==
    LET e == bits \ {"eof"}
        b == IF kind # "in" THEN Sentry ELSE IF e = {} THEN e ELSE e \cup {"fail"}
        can == b \cap {"fail", "bad"} = {} IN
    /\ kind # "seed"
    /\ IF can /\ Valid(Target(off, from)) THEN SeekTo(Target(off, from)) /\ bits' = b
       ELSE UNCHANGED <<kind, mem, pos, size, sx>> /\ bits' = IF can THEN b \cup {"fail"} ELSE b
\* An input stream that is not good fails on a position query; an output stream does not change
Tell == /\ kind # "seed" /\ UNCHANGED <<kind, mem, pos, size, sx>>
        /\ bits' = IF kind = "in" /\ ~Good THEN bits \cup {"fail"} ELSE IF kind = "out" THEN Sentry ELSE bits
TellResult == IF (kind = "in" /\ ~Good) \/ Failed THEN -1 ELSE pos

--------------------------------------------------------------------------
\* Output
Put(s, n) == [k \in DOMAIN mem |-> IF k > pos /\ k <= pos + n THEN s[k - pos] ELSE mem[k]]
Write(s) ==
    /\ UNCHANGED <<kind, sx>>
    /\ IF ~Good THEN UNCHANGED <<mem, pos, size>> /\ bits' = Sentry
       ELSE IF kind = "out"
       THEN LET n == Min(Len(s), Cap - pos) IN
            /\ mem' = Put(s, n) /\ pos' = pos + n /\ size' = Max(size, pos + n)
            /\ bits' = IF n < Len(s) THEN {"bad"} ELSE {}
       ELSE mem' = mem \o s /\ pos' = pos + Len(s) /\ size' = pos + Len(s) /\ bits' = {}
\* Growing stream: append on the buffer, regardless of the stream state
AppendBuf(s) == kind = "seed" /\ mem' = mem \o s /\ pos' = pos + Len(s) /\ size' = pos + Len(s) /\ UNCHANGED <<kind, sx, bits>>
Reserve == kind = "seed" /\ UNCHANGED vars
ClearContents == kind = "seed" /\ mem' = <<>> /\ pos' = 0 /\ size' = 0 /\ UNCHANGED <<kind, sx, bits>>
FullClear == kind = "seed" /\ mem' = <<>> /\ pos' = 0 /\ size' = 0 /\ bits' = {} /\ UNCHANGED <<kind, sx>>
SetState(b) == bits' = b /\ UNCHANGED <<kind, mem, pos, size, sx>>

Contents == SubSeq(mem, 1, size)

--------------------------------------------------------------------------
CONSTANTS MaxLen
Seqs(n) == UNION {[1..k -> Chars] : k \in 0..n}
MCInit == /\ hist = <<>> /\ pos = 0 /\ bits = {}
          /\ \E m \in {<<>>, <<1>>, <<1, 2>>, <<1, 2, 3>>, <<2, 1, 1, 2>>} :
                \/ kind = "in" /\ mem = m /\ size = Len(m) /\ sx = size
                \/ kind = "out" /\ mem = m /\ size \in {0, Len(m)} /\ sx = size
                \/ kind = "seed" /\ m = <<>> /\ mem = <<>> /\ size = 0 /\ sx = 0
H(r) == hist' = Append(hist, r)
Op(o, n, f, s) == [o |-> o, n |-> n, f |-> f, s |-> s]
MCNext ==
    \/ \E n \in 0..3 : Read(n) /\ H(Op("read", n, "", <<>>))
    \/ Peek /\ H(Op("peek", 0, "", <<>>))
    \/ Unget /\ H(Op("unget", 0, "", <<>>))
    \/ \E o \in (-(MaxLen + 1))..(MaxLen + 1), f \in {"beg", "cur", "end"} : Seek(o, f) /\ H(Op("seek", o, f, <<>>))
    \/ Tell /\ H(Op("tell", 0, "", <<>>))
    \/ \E s \in Seqs(2) : kind # "in" /\ Write(s) /\ H(Op("write", 0, "", s))
    \/ \E s \in Seqs(1) : AppendBuf(s) /\ H(Op("append", 0, "", s))
    \/ ClearContents /\ H(Op("clear_contents", 0, "", <<>>))
    \/ FullClear /\ H(Op("full_clear", 0, "", <<>>))
    \/ \E b \in {{}, {"eof"}, {"fail"}} : SetState(b) /\ H(Op("state", Cardinality(b), IF b = {"eof"} THEN "eof" ELSE "fail", <<>>))
MCSpec == MCInit /\ [][MCNext]_<<vars, hist>>
Short == Len(mem') <= MaxLen
Shape == <<kind, Len(mem), pos, size, bits, IF kind = "seed" THEN <<>> ELSE mem>>
Emit == Len(mem') <= MaxLen => PrintT("SCRIPT " \o ToJson([k |-> kind, cap |-> IF kind = "seed" THEN 0 ELSE Len(mem), ops |-> hist']))
SizeIsMax == kind = "out" => size = Max(sx, pos)
InRange == pos <= size /\ size <= Len(mem)
FailedSeekChangesNothing == [][bits' \ bits # {} /\ pos' # pos => (kind = "in" /\ bits' = {"eof", "fail"}) \/ bits' = {"bad"}]_<<vars, hist>>
=============================================================================
