-------------------------- MODULE TextFormatTrace --------------------------
EXTENDS TextFormat, TraceBase
VARIABLE open           \* has the paragraph been begun?
tv == <<l, open>>
TraceInit == l = 1 /\ open = FALSE
First(f, o) == IF o THEN f.first2 ELSE f.first1
NumLines(s, f, o) ==
    IF ShowsNothing(s, f) \/ ~(f.wrap /\ HasWidth(f)) THEN 1
    ELSE LET u == Units(s, f) IN 1 + Len(Greedy([k \in 1..Len(u.ws) |-> <<u.ws[k][1], u.ws[k][2]>>], u.trail, Geom(f, First(f, o)), 0))
OneLine(out, s, f, hq, o) == IF ShowsNothing(s, f) THEN out = <<BlankLine(f)>> ELSE IsLayout(out, s, f, First(f, o), hq, o)
RECURSIVE Several(_, _, _, _)
Several(out, ss, f, o) ==
    IF ss = <<>> THEN out = <<>>
    ELSE LET n == NumLines(Head(ss), f, o) IN
         Len(out) >= n /\ OneLine(SubSeq(out, 1, n), Head(ss), f, FALSE, o) /\ Several(SubSeq(out, n + 1, Len(out)), Tail(ss), f, ~ShowsNothing(Head(ss), f))
TraceNext ==
    \/ IsEvent("reset") /\ open' = FALSE
    \* One line of text, and the lines that came out
    \/ IsEvent("line") /\ Match("layout", OneLine(Ev.out, Ev.s, Ev.f, Ev.hq, open), TRUE)
                       /\ open' = ~ShowsNothing(Ev.s, Ev.f)
    \* Several lines at once
    \/ IsEvent("lines") /\ Match("layout", Several(Ev.out, Ev.ss, Ev.f, open), TRUE)
                        /\ open' = ~ShowsNothing(Ev.ss[Len(Ev.ss)], Ev.f)
TraceSpec == TraceInit /\ [][TraceNext]_tv
=============================================================================
