----------------------------- MODULE TextFileGen -----------------------------
(* Design of the buffering layer with newline translation: the buffer holds
   bytes from the logical position (index 0) to the actual file position;
   `curr` of them have been decoded ahead.  The logical position of a reading
   file is the actual one less what is in the buffer.  Refinement: it and the
   characters read are always those of module TextFile.                      *)
EXTENDS TextFile, Json
CONSTANTS BufSize, MaxBytes
Files == {<<>>, <<97, 13, 10, 98>>, <<13, 13, 10>>, <<97, 98, 13>>}
Texts == {<<10>>, <<97>>, <<13>>}
VARIABLES mode, fp, disk, buf, hist, ok
gvars == <<vars, mode, fp, disk, buf, hist, ok>>

GInit == /\ \E f \in Files : base = f /\ disk = f
         /\ pos = 0 /\ pend = <<>> /\ brk = FALSE /\ isopen = TRUE
         /\ conf = [wide |-> FALSE, nl |-> TRUE, dyn |-> FALSE, app |-> FALSE, buf |-> TRUE]
         /\ mode = "n" /\ fp = 0 /\ buf = <<>> /\ ok = TRUE
         /\ hist = << [o |-> "init", n |-> 0, s |-> base] >>

\* The decoder at work on the bytes in the buffer: CR at the end waits for more, unless the file ended
RECURSIVE Dec(_, _, _)
Dec(b, eof, n) ==
    IF n = 0 \/ b = <<>> THEN [cs |-> <<>>, rest |-> b]
    ELSE IF Head(b) = 13 /\ Len(b) = 1 /\ ~eof THEN [cs |-> <<>>, rest |-> b]
    ELSE IF Head(b) = 13 /\ Len(b) > 1 /\ b[2] = 10
         THEN LET r == Dec(SubSeq(b, 3, Len(b)), eof, n - 1) IN [cs |-> <<10>> \o r.cs, rest |-> r.rest]
    ELSE LET r == Dec(Tail(b), eof, n - 1) IN [cs |-> <<Head(b)>> \o r.cs, rest |-> r.rest]
RECURSIVE Fetch(_, _, _)
\* Read n characters, filling the buffer as needed: [cs, buf, fp]
Fetch(b, f, n) ==
    LET d == Dec(b, FALSE, n) IN
    IF Len(d.cs) > 0
    THEN LET r == Fetch(d.rest, f, n - Len(d.cs)) IN [cs |-> d.cs \o r.cs, buf |-> r.buf, fp |-> r.fp]
    ELSE IF n = 0 THEN [cs |-> <<>>, buf |-> b, fp |-> f]
    ELSE LET room == IF Len(b) >= BufSize THEN Len(b) + 1 ELSE BufSize
             k == Min(room - Len(b), Len(disk) - f) IN
         IF k > 0 THEN Fetch(b \o SubSeq(disk, f + 1, f + k), f + k, n)
         ELSE LET e == Dec(b, TRUE, n) IN [cs |-> e.cs, buf |-> e.rest, fp |-> f]

Put(d, p, s) == IF s = <<>> THEN d ELSE
    LET c == IF Len(d) < p THEN d \o Zeros(p - Len(d)) ELSE d
    IN SubSeq(c, 1, p) \o s \o SubSeq(c, p + Len(s) + 1, Len(c))
Op(o, n, s) == hist' = Append(hist, [o |-> o, n |-> n, s |-> s])

\* State of the design when writing has stopped
WDisk == IF mode = "w" THEN Put(disk, fp, buf) ELSE disk
WFp == IF mode = "w" THEN fp + Len(buf) ELSE fp
WBuf == IF mode = "w" THEN <<>> ELSE buf

GRead(n) == /\ Read(n) /\ Op("read", n, <<>>)
            /\ LET w == mode = "w"
                   r == IF w THEN [cs |-> <<>>, buf |-> <<>>, fp |-> WFp] ELSE Fetch(buf, fp, n) IN
               /\ ~w   \* (a read in writing mode is a flush and a read)
               /\ buf' = r.buf /\ fp' = r.fp /\ disk' = disk /\ mode' = "r"
               /\ ok' = (r.cs = Found(n).cs)
GWrite(s) == /\ Write(s) /\ Op("write", 0, s) /\ ok' = TRUE
             /\ LET f == IF mode = "r" THEN fp - Len(buf) ELSE fp     \* stop reading: back to the logical position
                    b == (IF mode = "w" THEN buf ELSE <<>>) \o Encode(s)
                    k == IF Len(b) > BufSize THEN Len(b) - (Len(b) % BufSize) ELSE 0 IN
                /\ mode' = "w" /\ disk' = Put(disk, f, SubSeq(b, 1, k)) /\ fp' = f + k /\ buf' = SubSeq(b, k + 1, Len(b))
GFlush == /\ Flush /\ Op("flush", 0, <<>>) /\ ok' = TRUE
          /\ disk' = WDisk /\ fp' = WFp /\ buf' = WBuf /\ mode' = IF mode = "w" THEN "n" ELSE mode
GTell == /\ Tell /\ Op("tell", 0, <<>>) /\ UNCHANGED <<mode, fp, disk, buf>>
         /\ ok' = (Position = IF mode = "w" THEN fp + Len(buf) ELSE fp - Len(buf))
GSeek(p) == /\ Seek(p) /\ Op("seek", p, <<>>) /\ ok' = TRUE
            /\ disk' = WDisk /\ mode' = "n" /\ buf' = <<>> /\ fp' = p
GNext == \/ \E n \in 1..3 : GRead(n)
         \/ \E s \in Texts : GWrite(s)
         \/ GFlush \/ GTell
         \/ \E p \in 0..MaxBytes : GSeek(p)
GSpec == GInit /\ [][GNext]_gvars
Bound == Len(Flushed) <= MaxBytes /\ Position <= MaxBytes
Shape == <<base, pos, pend, mode, fp, disk, buf, ok>>
Refines == /\ ok
           /\ mode # "w" => disk = base /\ pend = <<>> /\ pos = fp - Len(buf) /\ buf = SubSeq(disk, pos + 1, fp)
           /\ mode = "w" => Put(disk, fp, buf) = Flushed /\ fp + Len(buf) = Position
Emit == (Len(Flushed') <= MaxBytes) => PrintT("SCRIPT " \o ToJson(hist'))
=============================================================================
