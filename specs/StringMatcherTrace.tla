------------------------- MODULE StringMatcherTrace -------------------------
EXTENDS StringMatcher, TraceBase
VARIABLES ps, ids
tvars == <<ps, ids, l>>
TraceInit == ps = <<>> /\ ids = <<>> /\ l = 1
Reported(s) == LET i == First(ps, s) IN IF i = 0 THEN -1 ELSE ids[i]
TraceNext ==
    \/ IsEvent("reset") /\ ps' = <<>> /\ ids' = <<>>
    \* ok: the matcher could be built; if not, the one before stays
    \/ IsEvent("build") /\ Match("accepted", Ev.ok, Ev.allow \/ ~Ambiguous(Ev.ps))
         /\ Match("degenerate", Ev.deg, IF Ev.ok THEN Ev.ps = <<>> ELSE ps = <<>>)
         /\ IF Ev.ok THEN ps' = Ev.ps /\ ids' = Ev.ids ELSE UNCHANGED <<ps, ids>>
    \/ IsEvent("match") /\ UNCHANGED <<ps, ids>> /\ Match("matches", Ev.r, [i \in DOMAIN Ev.ss |-> Reported(Ev.ss[i])])
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
