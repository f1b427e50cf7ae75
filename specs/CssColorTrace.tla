--------------------------- MODULE CssColorTrace ---------------------------
EXTENDS CssColor, TraceBase
TraceInit == l = 1
Hexes(c, h) == \A k \in 1..4 : h[k] \in AsHex(c)[k]
TraceNext ==
    \/ IsEvent("reset")
    \* Parsing: what came of it, and what it is as hexadecimal
    \/ IsEvent("parse") /\ LET d == Denoted(Ev.t, Ev.s) IN
            /\ (d.k # "odd" => Match("success", Ev.ok, d.k # "bad"))
            /\ ((d.k \notin {"odd", "bad"}) => Match("color", Ev.c, d))
            /\ (~Ev.ok => Match("untouched", Ev.same, TRUE))
            /\ ((Ev.ok /\ Ev.hexed) => Match("as hexadecimal", Hexes(Ev.c, Ev.hex), TRUE))
    \* Formatting
    \/ IsEvent("format") /\ Match("text denotes the color", Denoted(Ev.t, Ev.s), Ev.c)
            /\ Match("parsed back", Ev.back, Ev.c)
            /\ Match("before", Ev.before, TRUE)
            /\ (Ev.c.k = "hex" => Match("length", Len(Ev.t) \in (IF Ev.short THEN {4, 5, 7, 9} ELSE {7, 9}), TRUE))
            /\ (Ev.hexed => Match("as hexadecimal", Hexes(Ev.c, Ev.hex), TRUE))
    \/ IsEvent("byname") /\ Match("found", Ev.ok, Ev.s \in DOMAIN Names)
            /\ (Ev.ok => Match("value", Ev.v, Names[Ev.s]))
    \/ IsEvent("byvalue") /\ Match("found", Ev.ok, \E n \in DOMAIN Names : Names[n] = Ev.v)
            /\ (Ev.ok => Match("value", Names[Ev.s], Ev.v))
    \* All names, in their order
    \/ IsEvent("names") /\ Match("number", Len(Ev.names), Cardinality(DOMAIN Names))
            /\ Match("names", {Ev.names[k] : k \in 1..Len(Ev.names)}, DOMAIN Names)
            /\ Match("beyond", Ev.beyond, FALSE)
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
