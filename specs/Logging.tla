------------------------------ MODULE Logging ------------------------------
(* Loggers stacked upon loggers. What a logger is, is known by what becomes *)
(* of a message that is logged on each of its channels: a sequence of       *)
(* deliveries, each to a root, each with a prefix, each provided that the   *)
(* level of the message passes a set of limits.                             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

\* Levels
Off == 0
Fatal == 1
Err == 2
Warn == 3
Info == 4
AllLevels == 8

\* Limits are known by their numbers. The first two are those of roots, and
\* of the null logger.
Limits0 == << AllLevels, Off >>

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x

\* Channel names and channel patterns are sequences of characters
RECURSIVE Wild(_, _)
Wild(p, n) ==
    IF p = <<>> THEN n = <<>>
    ELSE IF p[1] = "*" THEN Wild(Tail(p), n) \/ (n # <<>> /\ Wild(p, Tail(n)))
    ELSE n # <<>> /\ p[1] = n[1] /\ Wild(Tail(p), Tail(n))

----------------------------------------------------------------------------
(* Loggers: channels by name, the name of the selected channel, and the     *)
(* prefix that comes last.                                                  *)
Root(r) == [chans |-> (<<>> :> [ds |-> << [root |-> r, limits |-> {}, prefix |-> ""] >>, eff |-> { 1 }]),
            sel |-> <<>>, prefix |-> ""]
Null == [chans |-> (<<>> :> [ds |-> <<>>, eff |-> { 2 }]), sel |-> <<>>, prefix |-> ""]

Under(ch, p) == [ch EXCEPT !.ds = [k \in DOMAIN ch.ds |-> [ch.ds[k] EXCEPT !.prefix = @ \o p]]]
Has(L, c) == c \in DOMAIN L.chans

\* The same, with another selected channel (it must exist)
Selecting(L, c) == [L EXCEPT !.sel = c]
\* The same, with another prefix after those there are
Prefixing(L, p, c) == [L EXCEPT !.sel = c, !.prefix = @ \o p]

\* Channels that match are limited (there must be one)
Matches(L, pat) == { c \in DOMAIN L.chans : Wild(pat, c) }
Limiting(L, pat, id) ==
    [L EXCEPT !.chans =
        [c \in DOMAIN @ |->
            IF Wild(pat, c)
            THEN [ds |-> [k \in DOMAIN @[c].ds |-> [@[c].ds[k] EXCEPT !.limits = @ \union { id }]], eff |-> { id }]
            ELSE @[c]]]

\* The channel that a rule aims at
Target(rule) == Under(rule.L.chans[rule.c], rule.L.prefix)
RECURSIVE Last(_, _, _)
Last(rules, name, k) == IF k = 0 THEN 0 ELSE IF rules[k].name = name THEN k ELSE Last(rules, name, k - 1)
\* New channels, in addition to those of L; with rules [name, L, c]
Channelling(L, rules) ==
    LET names == DOMAIN L.chans \union { rules[k].name : k \in DOMAIN rules }
    IN [chans |-> [n \in names |-> LET k == Last(rules, n, Len(rules))
                                   IN IF k = 0 THEN Under(L.chans[n], L.prefix) ELSE Target(rules[k])],
        sel |-> L.sel, prefix |-> ""]
\* What is logged on some channels goes elsewhere, too
Duplicating(L, rules) ==
    [chans |-> [n \in DOMAIN L.chans |->
                   LET k == Last(rules, n, Len(rules))
                       own == Under(L.chans[n], L.prefix)
                   IN IF k = 0 THEN own
                      ELSE LET t == Target(rules[k]) IN [ds |-> own.ds \o t.ds, eff |-> own.eff \union t.eff]],
     sel |-> L.sel, prefix |-> ""]
\* One channel, without a name
Jailing(L, c) == [chans |-> (<<>> :> Under(L.chans[c], L.prefix)), sel |-> <<>>, prefix |-> ""]
\* Only the selected channel, but for another type of characters
Bridging(L) == [chans |-> (L.sel :> Under(L.chans[L.sel], L.prefix)), sel |-> L.sel, prefix |-> ""]

----------------------------------------------------------------------------
LimitOf(L, lim) == MaxOf({ lim[x] : x \in L.chans[L.sel].eff })
WillLog(L, lim, level) == level <= LimitOf(L, lim)

LevelPrefix(level, color) ==
    LET p == CASE level = Warn -> "WARNING: " [] level = Err -> "ERROR: " [] level = Fatal -> "FATAL: " [] OTHER -> ""
    IN IF ~color \/ p = "" THEN p
       ELSE (IF level = Warn THEN "^[22m^[33m" ELSE "^[1m^[31m") \o p \o "^[39m^[22m"

\* What arrives at a root: for each delivery, the lines of the message, each with everything before it
ArrivingLines(L, lim, level, lines, r, color) ==
    LET ds == SelectSeq(L.chans[L.sel].ds, LAMBDA d : d.root = r /\ \A x \in d.limits : level <= lim[x])
    IN [k \in DOMAIN ds |->
          LET p == ds[k].prefix \o L.prefix \o LevelPrefix(level, color)
          IN [i \in DOMAIN lines |-> p \o lines[i] \o "\n"]]

\* Each as one text
RECURSIVE Joined(_)
Joined(ts) == IF ts = <<>> THEN "" ELSE ts[1] \o Joined(Tail(ts))
Arriving(L, lim, level, lines, r, color) ==
    LET a == ArrivingLines(L, lim, level, lines, r, color) IN [k \in DOMAIN a |-> Joined(a[k])]
=============================================================================
