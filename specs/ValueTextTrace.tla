--------------------------- MODULE ValueTextTrace ---------------------------
EXTENDS ValueText, TraceBase
Q == INSTANCE Quoting
TraceInit == l = 1
Result(d) == /\ Match("success", Ev.ok, d.k = "val")
             /\ (d.k = "val" => Match("value", Ev.v, d.v))
             /\ (d.k # "val" => Match("untouched", Ev.v, Ev.was))
\* Elements of lists
Elem(t) == IF Ev.elem = "str" THEN Val(t)
           ELSE IF Ev.elem = "hex" THEN Denoted(t, 16, {}, Ev.lo, Ev.hi)
           ELSE ByStream(t, TRUE, Ev.lo, Ev.hi)
ElemText(t, v) == IF Ev.elem = "str" THEN t = v ELSE IsTextOf(t, v, IF Ev.elem = "hex" THEN 16 ELSE 10, 1, FALSE)
Default == IF Ev.elem = "str" THEN <<>> ELSE Zero
All(ps) == \A i \in 1..Len(ps) : Elem(ps[i]).k = "val"
Values(ps) == [i \in 1..Len(ps) |-> Elem(ps[i]).v]
\* Texts of the elements are recorded too, each formatted on its own
ListShown(n) ==
    /\ Match("number of texts", Len(Ev.texts), Len(Ev.vs))
    /\ Match("texts", \A i \in 1..Len(Ev.vs) : ElemText(Ev.texts[i], Ev.vs[i]), TRUE)
    /\ Match("text", Ev.t, Pad(ListText(SubSeq(Ev.texts, 1, n), Ev.c), Ev.width, Ev.left, Ev.fill))
Least(a, b) == IF a < b THEN a ELSE b
TraceNext ==
    \/ IsEvent("reset")
    \/ IsEvent("fmt") /\ LET min == MinDigits(Ev.min, Ev.lo, Ev.hi, Ev.radix) IN
            /\ Match("text", IsTextOf(Ev.t, Ev.v, Ev.radix, min, Ev.lower), TRUE)
            /\ Match("same by other ways", Ev.same, TRUE)
    \/ IsEvent("parse") /\ Result(Denoted(Ev.t, Ev.radix, Signs(Ev.mode, Ev.lo.s < 0), Ev.lo, Ev.hi))
    \/ IsEvent("flex") /\ Result(Flexible(Ev.t, Ev.lo, Ev.hi))
    \/ IsEvent("value") /\ Result(ByStream(Ev.t, Ev.lo.s < 0, Ev.lo, Ev.hi))
    \/ IsEvent("take") /\ LET w == Taken(Ev.t) IN
            /\ Result(Denoted(SubSeq(Ev.t, w[1], w[2]), Ev.radix, Signs("auto", Ev.lo.s < 0), Ev.lo, Ev.hi))
            /\ (Ev.ok => Match("rest", Ev.rest, SubSeq(Ev.t, w[2] + 1, Len(Ev.t))))
    \/ IsEvent("string") /\ Match("value", Ev.v, Ev.t)
    \* Lists of fixed size
    \/ IsEvent("list_fmt") /\ ListShown(Len(Ev.vs))
    \/ IsEvent("list_parse") /\
            IF Ev.n = 0 THEN Match("success", Ev.ok, IsEmptyList(Ev.t, Ev.c))
            ELSE LET ps == Pieces(Ev.t, Ev.c) IN
                 /\ Match("success", Ev.ok, Len(ps) = Ev.n /\ All(ps))
                 /\ (Ev.ok => Match("values", Ev.vs, Values(ps)))
    \* Lists that may be cut short
    \/ IsEvent("lista_fmt") /\ ListShown(Shortest(Ev.vs, Ev.min, Ev.copy, Default))
    \/ IsEvent("lista_parse") /\
            IF Ev.n = 0 THEN Match("success", Ev.ok, IsEmptyList(Ev.t, Ev.c))
            ELSE LET ps == Pieces(Ev.t, Ev.c) IN
                 /\ Match("success", Ev.ok, Len(ps) \in Least(AtLeastOne(Ev.min), Ev.n)..Ev.n /\ All(ps))
                 /\ (Ev.ok => Match("values", Ev.vs, FillUp(Values(ps), Ev.n, Ev.copy, Default)))
    \* Lists of variable length
    \/ IsEvent("listv_fmt") /\ ListShown(Least(Ev.n, Len(Ev.vs)))
    \/ IsEvent("listv_parse") /\
            IF IsEmptyList(Ev.t, Ev.c)
                THEN Match("none or one", Ev.ok => Ev.n \in {0, 1}, TRUE)      \* Not specified
            ELSE LET ps == Pieces(Ev.t, Ev.c) IN
                 /\ Match("success", Ev.ok, Len(ps) \in 1..Len(Ev.was) /\ All(ps))
                 /\ (Ev.ok => Match("number", Ev.n, Len(ps)))
                 /\ (Ev.ok => Match("values", Ev.vs, [i \in 1..Len(Ev.was) |-> IF i <= Len(ps) THEN Values(ps)[i] ELSE Ev.was[i]]))
                 /\ (~Ev.ok => Match("number", Ev.n, Ev.wasn))
    \* Quoting
    \/ IsEvent("quote") /\ LET s == [i \in 1..Len(Ev.s) |-> [c |-> Ev.s[i], print |-> Ev.print[i], space |-> Ev.space[i], xdigit |-> Ev.xdigit[i]]] IN
            /\ Match("text", Ev.t, Pad(Q!Shown(s, Ev.q, Ev.max, Ev.smart), Ev.width, Ev.left, Ev.fill))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
