--------------------------- MODULE TextFileTrace ---------------------------
(* d: the bytes of the file, read independently after the operation; ok: 1, 0,
   or 2 when the interface does not tell.                                    *)
EXTENDS TextFile, TraceBase
tvars == <<vars, l>>
TraceInit == Init /\ l = 1
OnDisk == Match("bytes of the file", IF \E k \in 0..Len(pend') : Ev.d = Apply(base', pos', SubSeq(pend', 1, k)) THEN TRUE ELSE pend', TRUE)
AllOnDisk == Match("bytes of the file", Ev.d, Apply(base', pos', pend'))
Ok(b) == Ev.ok = 2 \/ Match("success", Ev.ok = 1, b)
\* A function that throws does not tell how far it got
Got(cs) == IF Ev.thr THEN TRUE ELSE Match("read", Ev.r, cs)
Fine(st) == st # "err"
TraceNext ==
    \/ IsEvent("reset") /\ base' = Ev.d /\ pos' = 0 /\ pend' = <<>> /\ brk' = FALSE /\ isopen' = FALSE
         /\ conf' = [wide |-> Ev.wide, nl |-> Ev.nl, dyn |-> Ev.dyn, app |-> FALSE, buf |-> Ev.buf]
    \/ IsEvent("read") /\ Read(Ev.n) /\ AllOnDisk
         /\ IF brk THEN Match("read", Ev.r, <<>>) /\ Ok(FALSE)
            ELSE Got(Found(Ev.n).cs) /\ Ok(Fine(Found(Ev.n).st))
    \/ IsEvent("read_all") /\ Read(100000) /\ AllOnDisk
         /\ IF brk THEN Match("read", Ev.r, <<>>) /\ Ok(FALSE)
            ELSE Got(Found(100000).cs) /\ Ok(Fine(Found(100000).st))
    \/ IsEvent("read_some") /\ ReadSome(Ev.n, Len(Ev.r)) /\ AllOnDisk
         /\ IF brk THEN Match("read", Ev.r, <<>>) /\ Ok(FALSE)
            ELSE LET f == Found(Ev.n) IN
                 /\ Match("read", SubSeq(f.cs, 1, Min(Len(f.cs), Len(Ev.r))), Ev.r)
                 /\ Match("something", Len(Ev.r) = 0, Len(f.cs) = 0)
                 /\ Ok(Len(Ev.r) > 0 \/ Fine(f.st))
    \/ IsEvent("read_line") /\ ReadLine /\ AllOnDisk
         /\ IF brk THEN Match("line", Ev.r, <<>>) /\ Ok(FALSE)
            ELSE LET f == FoundLine IN
                 /\ Ok(Fine(f.st))
                 /\ IF Fine(f.st)
                    THEN /\ Match("line", Ev.r, IF f.st = "stop" THEN SubSeq(f.cs, 1, Len(f.cs) - 1) ELSE f.cs)
                         /\ Match("found", Ev.found, Len(f.cs) > 0)
                    ELSE TRUE
    \/ IsEvent("peek") /\ Peek /\ AllOnDisk /\ Match("peek", Ev.r, IF brk THEN <<>> ELSE Found(1).cs)
    \/ IsEvent("write") /\ Write(Ev.s) /\ OnDisk
         /\ IF brk THEN TRUE
            ELSE IF AllValid(Ev.s) THEN Ok(TRUE)
            ELSE IF conf.buf THEN TRUE
            ELSE Ok(FALSE) /\ ((Ev.ok # 2 /\ ~Ev.thr) => Match("written", Ev.n, Len(ValidPrefix(Ev.s))))
         /\ (Ev.ok = 1 => Match("written", Ev.n, Len(Ev.s)))
    \/ IsEvent("flush") /\ Flush /\ AllOnDisk /\ Ok(~brk)
    \/ IsEvent("tell") /\ Tell /\ OnDisk /\ Ok(~brk) /\ (~brk => Match("position", Ev.p, Position))
    \/ IsEvent("seek") /\ Seek(Ev.p) /\ AllOnDisk /\ Ok(~brk /\ Ev.p >= 0)
    \/ IsEvent("close") /\ (\E k \in 0..Len(pend) : Ev.d = Disk(k) /\ Close(k))
    \/ IsEvent("open") /\ Open(Ev.trunc, Ev.app) /\ Match("bytes of the file", Ev.d, base')
    \/ IsEvent("save") /\ Save(Ev.s, Len(Ev.d)) /\ Match("bytes of the file", Ev.d, base') /\ Ok(AllValid(Ev.s))
    \/ IsEvent("load") /\ ~isopen /\ UNCHANGED vars /\ Ok(Fine(Loaded.st))
         /\ LET s == Loaded.cs chomp == Ev.chomp /\ Len(s) > 0 /\ s[Len(s)] = 10
                r == IF chomp THEN SubSeq(s, 1, Len(s) - 1) ELSE s IN
            Match("loaded", Ev.r, IF Fine(Loaded.st) THEN Ev.pre \o r ELSE IF Ev.pre = <<>> THEN Ev.r ELSE Ev.pre)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
