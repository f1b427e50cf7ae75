----------------------------- MODULE LoggingMC -----------------------------
(* All small arrangements of loggers on top of two roots. What becomes of a *)
(* message by the definition, agrees with a walk from the logger, down      *)
(* through what it is built from.                                           *)
EXTENDS Logging, Json
CONSTANTS MaxMake, Printing

VARIABLES how, Ls, n  \* constructions, loggers, number of limits
vars == <<how, Ls, n>>

A == <<"a">>
B == <<"a", "b">>
Names == { A, B }
Pats == { <<"*">>, <<"a">>, <<"a", "*", "b">>, <<>> }

Init == /\ how = << [k |-> "root", r |-> 1, w |-> FALSE], [k |-> "root", r |-> 2, w |-> FALSE] >>
        /\ Ls = << Root(1), Root(2) >>
        /\ n = 2

P(i) == <<"P0: ", "P1: ", "P2: ", "P3: ", "P4: ", "P5: ", "P6: ">>[i]
Add(h, L) == how' = Append(how, h) /\ Ls' = Append(Ls, L)
Rule(nm, t) == << [name |-> nm, L |-> Ls[t], c |-> Ls[t].sel] >>
Next ==
    /\ Len(how) < MaxMake + 2
    /\ \E i \in DOMAIN how :
         \/ \E c \in DOMAIN Ls[i].chans :
              /\ c # Ls[i].sel
              /\ Add([k |-> "select", b |-> i, c |-> c, w |-> how[i].w], Selecting(Ls[i], c)) /\ UNCHANGED n
         \/ LET p == P(Len(how))
            IN Add([k |-> "prefix", b |-> i, p |-> p, c |-> Ls[i].sel, w |-> how[i].w], Prefixing(Ls[i], p, Ls[i].sel)) /\ UNCHANGED n
         \/ \E pat \in Pats :
              /\ Matches(Ls[i], pat) # {}
              /\ Add([k |-> "limit", b |-> i, pat |-> pat, id |-> n + 1, w |-> how[i].w], Limiting(Ls[i], pat, n + 1)) /\ n' = n + 1
         \/ \E t \in DOMAIN how, c \in Names :
              /\ how[t].w = how[i].w
              /\ Add([k |-> "channel", b |-> i, t |-> t, n |-> c, c |-> Ls[t].sel, w |-> how[i].w], Channelling(Ls[i], Rule(c, t))) /\ UNCHANGED n
         \/ \E t \in DOMAIN how :
              /\ how[t].w = how[i].w
              /\ Add([k |-> "dup", b |-> i, t |-> t, n |-> Ls[i].sel, c |-> Ls[t].sel, w |-> how[i].w], Duplicating(Ls[i], Rule(Ls[i].sel, t))) /\ UNCHANGED n
         \/ Add([k |-> "jail", b |-> i, c |-> Ls[i].sel, w |-> how[i].w], Jailing(Ls[i], Ls[i].sel)) /\ UNCHANGED n
         \/ ~how[i].w /\ Add([k |-> "bridge", b |-> i, w |-> TRUE], Bridging(Ls[i])) /\ UNCHANGED n
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* Prefix of the logger itself, and the channel that it selects
RECURSIVE Own(_)
Own(i) == LET h == how[i]
          IN CASE h.k \in { "select", "limit" } -> Own(h.b)
               [] h.k = "prefix" -> Own(h.b) \o h.p
               [] OTHER -> ""
RECURSIVE Sel(_)
Sel(i) == LET h == how[i]
          IN CASE h.k \in { "select", "prefix" } -> h.c
               [] h.k \in { "root", "jail" } -> <<>>
               [] OTHER -> Sel(h.b)
\* Where a message goes that enters at a channel with the prefixes that it
\* has met so far
RECURSIVE Walk(_, _, _, _)
Walk(i, c, acc, lims) ==
    LET h == how[i]
    IN CASE h.k = "root" -> << [root |-> h.r, limits |-> lims, prefix |-> acc] >>
         [] h.k \in { "select", "prefix" } -> Walk(h.b, c, acc, lims)
         [] h.k = "limit" -> Walk(h.b, c, acc, IF Wild(h.pat, c) THEN lims \union { h.id } ELSE lims)
         [] h.k = "channel" -> IF c = h.n THEN Walk(h.t, h.c, Own(h.t) \o acc, lims) ELSE Walk(h.b, c, Own(h.b) \o acc, lims)
         [] h.k = "dup" -> Walk(h.b, c, Own(h.b) \o acc, lims) \o (IF c = h.n THEN Walk(h.t, h.c, Own(h.t) \o acc, lims) ELSE <<>>)
         [] h.k = "jail" -> Walk(h.b, h.c, Own(h.b) \o acc, lims)
         [] OTHER -> Walk(h.b, c, Own(h.b) \o acc, lims)

New == Len(Ls)
Agrees ==
    LET L == Ls[New]
    IN /\ L.sel = Sel(New) /\ L.prefix = Own(New)
       /\ (\A c \in DOMAIN L.chans : L.chans[c].ds = Walk(New, c, "", {}))

\* Limits of 3 and 5, in all ways
Lims == [1..n -> { 3, 5 }]
Lim(f) == [x \in 1..n |-> IF x <= 2 THEN Limits0[x] ELSE f[x]]
Reached(L, lim, level) == \E k \in DOMAIN L.chans[L.sel].ds : \A x \in L.chans[L.sel].ds[k].limits : level <= lim[x]
\* The effective limit only stops what would be stopped anyway, and raising
\* limits lets more through.
Effective ==
    LET L == Ls[New]
    IN \A f \in [3..n -> { 3, 5 }] :
         LET lim == TLCEval([x \in 1..n |-> IF x <= 2 THEN Limits0[x] ELSE f[x]])
         IN \A level \in { 2, 4, 6 } :
              /\ (Reached(L, lim, level) => WillLog(L, lim, level))
              /\ (\A x \in 3..n : Reached(L, lim, level) => Reached(L, [lim EXCEPT ![x] = 5], level))

Emit == (Printing /\ Len(how) = MaxMake + 2) =>
          PrintT("SCRIPT " \o ToJson([how |-> SubSeq(how, 3, Len(how))]))
=============================================================================
