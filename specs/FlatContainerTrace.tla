------------------------ MODULE FlatContainerTrace ------------------------
EXTENDS FlatContainer, TraceBase
tvars == <<vars, hist, l>>
TraceInit == ents = <<>> /\ multi = FALSE /\ hist = <<>> /\ l = 1
E == <<Ev.k, Ev.t, Ev.v>>
Observed == /\ Match("contents", Ev.c, ents')
            /\ Match("size", Ev.size, Len(ents'))
            /\ Match("empty", Ev.empty, ents' = <<>>)
            /\ Match("capacity", Ev.cap >= Len(ents'), TRUE)
            /\ Ev.threw => Match("exception without cause", Ev.armed, TRUE)
            /\ Match("objects alive", Ev.live, Ev.per * Len(ents'))
            /\ Match("lifetime errors", Ev.bad, 0)
TraceNext ==
    /\ UNCHANGED hist
    /\ \/ IsEvent("reset") /\ ents' = <<>> /\ multi' = Ev.multi
       \/ /\ IsEvent("insert") /\ Insert(E, Ev.threw) /\ Observed
          /\ ~Ev.threw => /\ Match("position", Ev.pos, InsPos(ents, E))
                          /\ ~multi => Match("inserted", Ev.ins, InsNew(ents, E))
       \/ IsEvent("range") /\ InsertRange(Ev.es, IF Ev.threw THEN Ev.n ELSE Len(Ev.es)) /\ Observed
       \/ IsEvent("create") /\ ents' = (IF Ev.threw THEN <<>> ELSE InsAll(<<>>, Ev.es)) /\ UNCHANGED multi /\ Observed
       \/ IsEvent("assign") /\ Assign(Ev.k, Ev.t, Ev.v) /\ Observed
       \/ /\ IsEvent("erase") /\ (IF Ev.threw THEN UNCHANGED vars ELSE Erase(Ev.k)) /\ Observed
          /\ ~Ev.threw => Match("number erased", Ev.r, Len(ents) - Len(ents'))
       \/ IsEvent("clear") /\ Clear /\ Observed
       \/ IsEvent("room") /\ UNCHANGED vars /\ Observed \* reserve, reserve_extra, shrink_to_fit, move
       \/ /\ IsEvent("look") /\ UNCHANGED vars
          /\ LET k == Ev.k lo == Lower(ents, k) up == Upper(ents, k) IN
             /\ Match("lower_bound", Ev.lo, lo)
             /\ Match("upper_bound", Ev.up, up)
             /\ Match("equal_range", Ev.er, <<lo, up>>)
             /\ Match("count", Ev.count, up - lo)
             /\ Match("contains", Ev.contains, up > lo)
             /\ Match("find", Ev.find, IF up > lo THEN ents[Ev.find + 1][1] - k + Ev.find ELSE Len(ents))
             /\ (~multi /\ Ev.hasat) => Match("at", Ev.at, IF up > lo THEN <<ents[lo + 1][3]>> ELSE <<>>)
             /\ Match("reverse", Ev.rev, [i \in 1..Len(ents) |-> Key(ents[Len(ents) + 1 - i])])
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
