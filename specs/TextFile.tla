------------------------------ MODULE TextFile ------------------------------
(* Text files as one character file.  `base` is the file without the characters
   written but not flushed; those are encoded in `pend`, to be placed at `pos`
   (or at the end, in append mode).  The logical position is pos + Len(pend).
   `brk` says that a character that cannot be encoded is stuck in a buffer.
   conf: wide (UTF-8 characters instead of bytes), nl (newline translation),
   dyn (dynamic end of file), app (append mode), buf (buffered).             *)
EXTENDS Integers, Sequences, TLC

VARIABLES base, pos, pend, brk, conf, isopen
vars == <<base, pos, pend, brk, conf, isopen>>

Min(a, b) == IF a < b THEN a ELSE b
Zeros(n) == [k \in 1..n |-> 0]
\* Bytes b with s written at p
Apply(b, p, s) ==
    IF s = <<>> THEN b
    ELSE IF conf.app THEN b \o s
    ELSE LET c == IF Len(b) < p THEN b \o Zeros(p - Len(b)) ELSE b
         IN SubSeq(c, 1, p) \o s \o SubSeq(c, p + Len(s) + 1, Len(c))
Flushed == Apply(base, pos, pend)
FlushedPos == IF pend = <<>> THEN pos ELSE IF conf.app THEN Len(Flushed) ELSE pos + Len(pend)

--------------------------------------------------------------------------
\* Encoding
Valid(c) == IF conf.wide THEN c >= 0 /\ c <= 1114111 /\ ~(c >= 55296 /\ c <= 57343) ELSE TRUE
Utf8(c) == CASE c < 128 -> <<c>>
             [] c < 2048 -> <<192 + (c \div 64), 128 + (c % 64)>>
             [] c < 65536 -> <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
             [] OTHER -> <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Enc1(c) == IF c = 10 /\ conf.nl THEN <<13, 10>> ELSE IF conf.wide THEN Utf8(c) ELSE <<c>>
RECURSIVE Encode(_)
Encode(s) == IF s = <<>> THEN <<>> ELSE Enc1(Head(s)) \o Encode(Tail(s))
AllValid(s) == \A i \in DOMAIN s : Valid(s[i])
RECURSIVE ValidPrefix(_)
ValidPrefix(s) == IF s = <<>> \/ ~Valid(Head(s)) THEN <<>> ELSE <<Head(s)>> \o ValidPrefix(Tail(s))

\* Decoding of the character at index i of b
Cont(x) == x >= 128 /\ x <= 191
Second(l, x) == CASE l = 224 -> x >= 160 /\ x <= 191 [] l = 237 -> x >= 128 /\ x <= 159
                  [] l = 240 -> x >= 144 /\ x <= 191 [] l = 244 -> x >= 128 /\ x <= 143 [] OTHER -> Cont(x)
DecodeAt(b, i) ==
    LET x == b[i] e == Len(b)
        char(c, n) == [t |-> "char", c |-> c, n |-> n]
        bad == [t |-> "err", c |-> 0, n |-> 0]
        part == [t |-> "part", c |-> 0, n |-> 0] IN
    IF conf.nl /\ x = 13 /\ i < e /\ b[i + 1] = 10 THEN char(10, 2)
    ELSE IF ~conf.wide \/ x < 128 THEN char(x, 1)
    ELSE IF x < 194 \/ x > 244 THEN bad
    ELSE IF i + 1 > e THEN part
    ELSE IF ~Second(x, b[i + 1]) THEN bad
    ELSE IF x < 224 THEN char((x - 192) * 64 + (b[i + 1] - 128), 2)
    ELSE IF i + 2 > e THEN part
    ELSE IF ~Cont(b[i + 2]) THEN bad
    ELSE IF x < 240 THEN char((x - 224) * 4096 + (b[i + 1] - 128) * 64 + (b[i + 2] - 128), 3)
    ELSE IF i + 3 > e THEN part
    ELSE IF ~Cont(b[i + 3]) THEN bad
    ELSE char((x - 240) * 262144 + (b[i + 1] - 128) * 4096 + (b[i + 2] - 128) * 64 + (b[i + 3] - 128), 4)
\* A carriage return at the end is not yet a character of a file that grows
Visible(b) == IF conf.dyn /\ conf.nl /\ Len(b) > 0 /\ b[Len(b)] = 13 THEN SubSeq(b, 1, Len(b) - 1) ELSE b
RECURSIVE Run(_, _, _, _)
\* At most `max` characters from index i on, but none after `stop`
Run(b, i, max, stop) ==
    IF max = 0 THEN [cs |-> <<>>, i |-> i, st |-> "full"]
    ELSE IF i > Len(b) THEN [cs |-> <<>>, i |-> i, st |-> "end"]
    ELSE LET d == DecodeAt(b, i) IN
         IF d.t = "err" THEN [cs |-> <<>>, i |-> i, st |-> "err"]
         ELSE IF d.t = "part" THEN [cs |-> <<>>, i |-> i, st |-> IF conf.dyn THEN "end" ELSE "err"]
         ELSE IF d.c = stop THEN [cs |-> <<d.c>>, i |-> i + d.n, st |-> "stop"]
         ELSE LET r == Run(b, i + d.n, max - 1, stop) IN [cs |-> <<d.c>> \o r.cs, i |-> r.i, st |-> r.st]
\* What a read of n characters finds, after flushing
Found(n) == Run(Visible(Flushed), FlushedPos + 1, n, -1)
FoundLine == Run(Visible(Flushed), FlushedPos + 1, 100000, 10)

--------------------------------------------------------------------------
Init == base = <<>> /\ pos = 0 /\ pend = <<>> /\ brk = FALSE /\ isopen = FALSE
        /\ conf = [wide |-> FALSE, nl |-> FALSE, dyn |-> FALSE, app |-> FALSE, buf |-> FALSE]
Settle(p) == base' = Flushed /\ pos' = p /\ pend' = <<>> /\ brk' = FALSE /\ UNCHANGED <<conf, isopen>>
Stuck == UNCHANGED vars

Read(n) == isopen /\ IF brk THEN Stuck ELSE Settle(Found(n).i - 1)
\* some of the characters
ReadSome(n, k) == isopen /\ IF brk THEN Stuck ELSE Settle(Found(k).i - 1)
ReadLine == isopen /\ IF brk THEN Stuck ELSE Settle(FoundLine.i - 1)
Peek == isopen /\ IF brk THEN Stuck ELSE Settle(FlushedPos)
Write(s) ==
    /\ isopen
    /\ IF brk THEN Stuck
       ELSE /\ pend' = pend \o Encode(ValidPrefix(s))
            /\ brk' = (conf.buf /\ ~AllValid(s))
            /\ UNCHANGED <<base, pos, conf, isopen>>
Flush == isopen /\ IF brk THEN Stuck ELSE Settle(FlushedPos)
Tell == isopen /\ UNCHANGED vars
Position == pos + Len(pend)
Seek(p) == isopen /\ IF brk THEN Stuck ELSE Settle(IF p < 0 THEN FlushedPos ELSE p)
\* Not flushed characters may be lost, but only the last ones
Close(k) == /\ isopen /\ k \in 0..Len(pend) /\ base' = Apply(base, pos, SubSeq(pend, 1, k))
            /\ pos' = 0 /\ pend' = <<>> /\ brk' = FALSE /\ isopen' = FALSE /\ UNCHANGED conf
Open(trunc, app) == /\ ~isopen /\ base' = (IF trunc THEN <<>> ELSE base) /\ pos' = 0 /\ pend' = <<>> /\ brk' = FALSE
                    /\ isopen' = TRUE /\ conf' = [conf EXCEPT !.app = app]
\* What is left in the file when saving fails is some of what could be encoded
Save(s, left) == /\ ~isopen /\ UNCHANGED <<pos, pend, brk, conf, isopen>>
                 /\ LET e == Encode(ValidPrefix(s)) IN
                    base' = IF AllValid(s) THEN e ELSE SubSeq(e, 1, Min(left, Len(e)))
Loaded == Run(Visible(base), 1, 100000, -1)
\* Contents of the file when k bytes of what is pending have been written
Disk(k) == Apply(base, pos, SubSeq(pend, 1, k))
=============================================================================
