------------------------ MODULE StringTemplateTrace ------------------------
EXTENDS StringTemplate, TraceBase
VARIABLES params,       \* parameters: name -> [kind, i]
          vals,         \* variables of the parameters
          templ         \* templates: slot -> items
vars == <<params, vals, templ>>
TraceInit == l = 1 /\ params = <<>> /\ vals = <<>> /\ templ = <<>>
\* Numbers are shown according to the flags and the locale of the stream: base, separator of groups (0: none)
Shown(v, base) == Grouped(Number(v, base), Ev.sep)
Base == IF Ev.hex THEN 16 ELSE 10
\* What a parameter does to the flags of the stream has no bearing on what follows it
Value(n, ctx) == LET p == params[n] IN
    CASE p.kind = "num" -> Shown(vals[p.i], Base)
      [] p.kind = "str" -> vals[p.i]
      [] p.kind = "hex" -> Shown(vals[p.i], 16)
      [] p.kind = "ctx" -> Shown(ctx, Base)
      [] p.kind = "next" -> Shown(ctx + 1, Base)
      [] p.kind = "bool" -> IF Ev.alpha THEN (IF Odd(vals[p.i]) THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>)
                            ELSE <<IF Odd(vals[p.i]) THEN 49 ELSE 48>>
ToFun(ps) == [n \in {ps[k].name : k \in 1..Len(ps)} |-> LET q == CHOOSE k \in 1..Len(ps) : ps[k].name = n IN [kind |-> ps[q].kind, i |-> ps[q].i]]
TraceNext ==
    \/ IsEvent("reset") /\ params' = ToFun(Ev.params) /\ vals' = Ev.vals /\ templ' = [k \in 1..Ev.slots |-> <<>>]
    \/ IsEvent("set") /\ vals' = [vals EXCEPT ![Ev.i] = Ev.v] /\ UNCHANGED <<params, templ>>
    \* Defining a parameter once more is an error
    \/ IsEvent("define") /\ Match("accepted", Ev.ok, Ev.name \notin DOMAIN params)
         /\ params' = (IF Ev.ok THEN [n \in DOMAIN params \cup {Ev.name} |-> IF n = Ev.name THEN [kind |-> "num", i |-> Ev.i] ELSE params[n]] ELSE params)
         /\ UNCHANGED <<vals, templ>>
    \* The error handler gives up at the given error (0: never)
    \/ IsEvent("parse") /\ UNCHANGED <<params, vals>> /\ LET r == Parse(Ev.t, DOMAIN params)
                               stopped == Ev.stop > 0 /\ Ev.stop <= Len(r.errs) IN
            /\ Match("success", Ev.ok, ~stopped)
            /\ (IF Ev.errs = <<"thrown">> THEN Match("thrown", stopped, TRUE)
                ELSE Match("errors", Ev.errs, IF stopped THEN SubSeq(r.errs, 1, Ev.stop) ELSE r.errs))
            /\ templ' = (IF stopped THEN templ ELSE [templ EXCEPT ![Ev.slot] = r.items])
    \/ IsEvent("expand") /\ UNCHANGED vars
         /\ LET V == [n \in DOMAIN params |-> Value(n, Ev.ctx)] IN Match("expansion", Ev.out, Padded(Expand(templ[Ev.slot], V), Ev.width, Ev.fill, Ev.left))
         /\ Match("rest of line", Ev.after, Shown(Ev.ctx, Base) \o (IF Ev.alpha THEN <<116, 114, 117, 101>> ELSE <<49>>))
    \/ IsEvent("refers") /\ UNCHANGED vars /\ Match("refers", Ev.r, RefersTo(templ[Ev.slot], Ev.name))
    \/ IsEvent("move") /\ templ' = [templ EXCEPT ![Ev.to] = templ[Ev.from]] /\ UNCHANGED <<params, vals>>
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
