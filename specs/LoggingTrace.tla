---------------------------- MODULE LoggingTrace ----------------------------
(* Recorded constructions of loggers, logging, and changes of limits.        *)
EXTENDS Logging, SequencesExt, TraceBase
VARIABLES roots, Ls, lim
tv == <<roots, Ls, lim>>

TraceInit == l = 1 /\ roots = <<>> /\ Ls = <<>> /\ lim = Limits0

TReset ==
    /\ IsEvent("reset")
    /\ roots' = Ev.roots
    /\ Ls' = [k \in DOMAIN Ev.roots |-> IF Ev.roots[k].k = "null" THEN Null ELSE Root(k)]
    /\ lim' = Limits0

Rules(ev) == [k \in DOMAIN ev.rules |-> [name |-> ev.rules[k].n, L |-> Ls[ev.rules[k].t], c |-> ev.rules[k].c]]
RulesOk(ev) == \A k \in DOMAIN ev.rules : Has(Ls[ev.rules[k].t], ev.rules[k].c)
MakeOk(ev) ==
    CASE ev.k \in { "select", "prefix", "jail" } -> Has(Ls[ev.b], ev.c)
      [] ev.k \in { "limit", "fixed" } -> Matches(Ls[ev.b], ev.pat) # {}
      [] ev.k = "channel" -> RulesOk(ev)
      [] ev.k = "dup" -> RulesOk(ev) /\ \A k \in DOMAIN ev.rules : Has(Ls[ev.b], ev.rules[k].n)
      [] OTHER -> TRUE
Make(ev) ==
    LET L == Ls[ev.b]
    IN CASE ev.k = "select" -> Selecting(L, ev.c)
         [] ev.k = "prefix" -> Prefixing(L, ev.p, ev.c)
         [] ev.k \in { "limit", "fixed" } -> Limiting(L, ev.pat, Len(lim) + 1)
         [] ev.k = "channel" -> Channelling(L, Rules(ev))
         [] ev.k = "dup" -> Duplicating(L, Rules(ev))
         [] ev.k = "jail" -> Jailing(L, ev.c)
         [] ev.k = "bridge" -> Bridging(L)
         [] OTHER -> L
TMake ==
    /\ IsEvent("make")
    /\ Match("made", Ev.ok, MakeOk(Ev))
    /\ Ls' = IF Ev.ok THEN Append(Ls, TLCEval(Make(Ev))) ELSE Ls
    /\ lim' = IF Ev.ok /\ Ev.k = "limit" THEN Append(lim, Info)
              ELSE IF Ev.ok /\ Ev.k = "fixed" THEN Append(lim, Ev.level) ELSE lim
    /\ UNCHANGED roots
TSet ==
    /\ IsEvent("set")
    /\ lim' = [lim EXCEPT ![Ev.id] = Ev.level]
    /\ UNCHANGED <<roots, Ls>>
Bag(s) == [x \in ToSet(s) |-> Cardinality({ k \in DOMAIN s : s[k] = x })]
TLog ==
    /\ IsEvent("log")
    /\ Match("roots", Len(Ev.out), Len(roots))
    /\ (\A r \in DOMAIN roots :
          LET texts == Arriving(Ls[Ev.l], lim, Ev.level, Ev.lines, r, roots[r].color)
              \* What arrives at streams and files is recorded as lines
              exp == IF roots[r].k = "custom" THEN texts
                     ELSE FlattenSeq(ArrivingLines(Ls[Ev.l], lim, Ev.level, Ev.lines, r, roots[r].color))
          IN Match("what arrives at root", IF Bag(Ev.out[r]) = Bag(exp) THEN exp ELSE Ev.out[r], exp))
    /\ UNCHANGED tv
TQuery ==
    /\ IsEvent("query")
    /\ Match("limit", Ev.limit, LimitOf(Ls[Ev.l], lim))
    /\ Match("will log", Ev.will, [v \in 1..8 |-> WillLog(Ls[Ev.l], lim, v)])
    /\ Match("selected", Ev.sel, Ls[Ev.l].sel)
    /\ Match("channels", ToSet(Ev.chans), DOMAIN Ls[Ev.l].chans)
    /\ Match("each once", Len(Ev.chans), Cardinality(DOMAIN Ls[Ev.l].chans))
    /\ UNCHANGED tv

TraceNext == TReset \/ TMake \/ TSet \/ TLog \/ TQuery
TraceSpec == TraceInit /\ [][TraceNext]_<<l, roots, Ls, lim>>
=============================================================================
