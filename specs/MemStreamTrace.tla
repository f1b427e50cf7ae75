--------------------------- MODULE MemStreamTrace ---------------------------
EXTENDS MemStream, TraceBase
tvars == <<vars, hist, l>>
BitSet(n) == (IF n % 2 = 1 THEN {"eof"} ELSE {}) \cup (IF (n \div 2) % 2 = 1 THEN {"fail"} ELSE {}) \cup (IF n \div 4 = 1 THEN {"bad"} ELSE {})
TraceInit == kind = "in" /\ mem = <<>> /\ pos = 0 /\ size = 0 /\ sx = 0 /\ bits = {} /\ hist = <<>> /\ l = 1
\* every event reports stream state, the visible contents, and guard bytes around the memory
Obs == /\ Match("state", BitSet(Ev.st), bits')
       /\ Match("contents", Ev.v, SubSeq(mem', 1, size'))
       /\ Match("guards", Ev.g, TRUE)
       /\ ("mem" \in DOMAIN Ev => Match("memory", Ev.mem, mem'))
TraceNext ==
    /\ UNCHANGED hist
    /\ \/ IsEvent("reset") /\ Reset(Ev.k, Ev.m, Ev.n) /\ Obs
       \/ IsEvent("read") /\ Read(Ev.n) /\ Match("read", Ev.r, ReadResult(Ev.n)) /\ Obs
       \/ IsEvent("peek") /\ Peek /\ Match("peek", Ev.r, PeekResult) /\ Obs
       \/ IsEvent("unget") /\ Unget /\ Obs
       \/ IsEvent("seek") /\ Seek(Ev.off, Ev.f) /\ Obs
       \/ IsEvent("tell") /\ Tell /\ Match("position", Ev.r, TellResult) /\ Obs
       \/ IsEvent("write") /\ Write(Ev.s) /\ Obs
       \/ IsEvent("append") /\ AppendBuf(Ev.s) /\ Obs
       \/ IsEvent("reserve") /\ Reserve /\ Obs
       \/ IsEvent("clear_contents") /\ ClearContents /\ Obs
       \/ IsEvent("full_clear") /\ FullClear /\ Obs
       \/ IsEvent("state") /\ SetState(BitSet(Ev.set)) /\ Obs
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
