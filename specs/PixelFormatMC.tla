--------------------------- MODULE PixelFormatMC ---------------------------
(* Every layout of small words: places of different bits are different ones,
   within the buffer; and what a bit in memory belongs to is where it came
   from. A written block reads back, and nothing else changes.               *)
EXTENDS PixelFormat, FiniteSets
CONSTANTS WB, Chans, MaxD, MaxW, MaxH

Base == [kind |-> "integer", wb |-> WB, b |-> WB, d |-> 1, big |-> TRUE, n |-> 1, fields |-> <<>>, cw |-> 1, np |-> 1,
         pbig |-> TRUE, align |-> TRUE, alpha |-> FALSE, af |-> FALSE, rev |-> FALSE, t |-> 8, idx |-> FALSE]
Orders == {o \in {[n |-> k, alpha |-> al, af |-> a, rev |-> r] : k \in 1..Chans, al \in BOOLEAN, a \in BOOLEAN, r \in BOOLEAN} : o.af => o.alpha}
WithOrder(g, o) == [g EXCEPT !.n = o.n, !.alpha = o.alpha, !.af = o.af, !.rev = o.rev]
Words == {[Base EXCEPT !.b = b, !.d = d, !.big = e] : b \in {1, 3, WB}, d \in 1..MaxD, e \in BOOLEAN}
Integers_ == {WithOrder(g, o) : g \in Words, o \in Orders}
FieldSeqs(k) == [1..k -> {<<1, 0>>, <<2, 1>>, <<3, 0>>, <<1, 2>>}]
Total(fs) == IF fs = <<>> THEN 0 ELSE Above(<<<<0, 0>>>> \o fs, 0)
Packeds == UNION {{[WithOrder(g, o) EXCEPT !.kind = "packed", !.fields = fs] : g \in {g \in Words : g.b * g.d >= Total(fs)}, o \in {o \in Orders : o.n = Len(fs)}} :
                  fs \in UNION {FieldSeqs(k) : k \in 1..3}}
Slots == {g \in {[WithOrder(g, o) EXCEPT !.kind = "slots", !.cw = c, !.np = p, !.pbig = e, !.align = a] :
                   g \in Words, o \in Orders, c \in {1, 2, 3}, p \in 1..3, e \in BOOLEAN, a \in BOOLEAN} : g.np * g.n * g.cw <= g.d * g.b}
MCInit == /\ f \in Integers_ \cup Packeds \cup Slots /\ \E s \in {<<MaxW, MaxH>>, <<1, 1>>, <<0, 0>>} : w = s[1] /\ h = s[2] /\ st = Blank(f, w, h)
MCSpec == MCInit /\ [][FALSE]_vars

AllBits == {<<x, y, c, k>> \in (0..(w - 1)) \X (0..(h - 1)) \X (0..(f.n - 1)) \X (0..15) : k < Width(f, c)}
LayoutRight ==
    /\ \A p \in AllBits : LET l == Loc(f, w, p[1], p[2], p[3], p[4]) IN
          /\ l[1] \in 0..(BufferSize(f, w, h) - 1) /\ l[2] \in 0..(f.b - 1)
          /\ Owner(f, w, h, l[1], l[2]) = <<(p[2] * w) + p[1], p[3], p[4]>>
    /\ \A i \in 0..(BufferSize(f, w, h) - 1), b \in 0..(WB - 1) : LET o == Owner(f, w, h, i, b) IN
          o # None => Loc(f, w, o[1] % w, o[1] \div w, o[2], o[3]) = <<i, b>>
=============================================================================
