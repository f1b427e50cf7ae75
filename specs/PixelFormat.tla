---------------------------- MODULE PixelFormat ----------------------------
(* How pixels are laid out in memory, and what that makes of a history of
   reading, writing and filling of blocks.

   A buffer is a sequence of words of which the b least significant bits are in
   use. A run of d words makes up a compound, the first word being the most
   significant one when the word order is big-endian.

     integer  one compound for each component
     packed   one compound for each pixel, divided into fields
     slots    a number of pixels of equal width in each compound, each divided
              into channels of equal width, the first one most significant;
              rows may be aligned to compounds

   f: [kind, wb, b, d, big, n, fields, cw, np, pbig, align, alpha, af, rev, t]
      wb     bits in a word
      n      number of channels (1 for indexes into a palette)
      fields of packed: <<<<width, gap below it>>, ...>>, most significant first
      cw     of slots: bits in a channel; np: pixels in a compound; pbig: the
             first pixel is the most significant one
      af     alpha channel first;  rev: reverse order of channels
      t      bits in a transferred component; 1 stands for floating point form,
             of which only 0 and 1 are considered
      idx    components are color indexes                                    *)
EXTENDS Integers, Sequences

VARIABLES f, w, h, st      \* st[p][c]: bits of component c of p'th pixel in row-major order, most significant first
vars == <<f, w, h, st>>

Ceil(a, b) == (a + b - 1) \div b
Pow2(k) == 2 ^ k

\* ---- Layout

\* Place of channel c (0, 1, ...) in memory order of the channels
Place(g, c) == LET j == IF g.alpha /\ g.af THEN (c + 1) % g.n ELSE c IN IF g.rev THEN g.n - 1 - j ELSE j
Channel(g, p) == CHOOSE c \in 0..(g.n - 1) : Place(g, c) = p
RECURSIVE Above(_, _)      \* bits of fields and gaps after place p
Above(fields, p) == IF p + 2 > Len(fields) THEN 0 ELSE fields[p + 2][1] + fields[p + 2][2] + Above(fields, p + 1)
Shift(g, p) == Above(g.fields, p) + g.fields[p + 1][2]
Width(g, c) == CASE g.kind = "integer" -> g.d * g.b [] g.kind = "packed" -> g.fields[Place(g, c) + 1][1] [] OTHER -> g.cw

PixelsIn(g) == IF g.kind = "slots" THEN g.np ELSE 1
RowCompounds(g, ww) == IF g.kind = "integer" THEN ww * g.n ELSE Ceil(ww, PixelsIn(g))      \* when rows are aligned
Compounds(g, ww, hh) == IF g.kind = "slots" /\ ~g.align THEN Ceil(ww * hh, g.np) ELSE RowCompounds(g, ww) * hh
BufferSize(g, ww, hh) == Compounds(g, ww, hh) * g.d

\* Bit k (0: least significant) of component c of pixel (x, y): <<word, bit>>
Loc(g, ww, x, y, c, k) ==
    LET p == Place(g, c)
        run == IF g.kind = "slots" /\ g.align THEN (y * RowCompounds(g, ww) * g.np) + x ELSE (y * ww) + x
        compound == CASE g.kind = "integer" -> (run * g.n) + p [] g.kind = "packed" -> run [] OTHER -> run \div g.np
        s == run % g.np
        q == CASE g.kind = "integer" -> k
               [] g.kind = "packed" -> Shift(g, p) + k
               [] OTHER -> ((IF g.pbig THEN g.np - 1 - s ELSE s) * g.n * g.cw) + ((g.n - 1 - p) * g.cw) + k
        i == IF g.big THEN g.d - 1 - (q \div g.b) ELSE q \div g.b
    IN <<(compound * g.d) + i, q % g.b>>

None == <<-1, -1, -1>>
\* What a bit of a word belongs to: <<pixel, component, bit>>
Owner(g, ww, hh, iw, bit) ==
    LET compound == iw \div g.d
        i == iw % g.d
        q == ((IF g.big THEN g.d - 1 - i ELSE i) * g.b) + bit
    IN IF bit >= g.b THEN None
       ELSE CASE g.kind = "integer" -> <<compound \div g.n, Channel(g, compound % g.n), q>>
              [] g.kind = "packed" ->
                   LET at == {p \in 0..(g.n - 1) : Shift(g, p) <= q /\ q < Shift(g, p) + g.fields[p + 1][1]}
                   IN IF at = {} THEN None ELSE LET p == CHOOSE p \in at : TRUE IN <<compound, Channel(g, p), q - Shift(g, p)>>
              [] OTHER ->
                   LET pw == g.n * g.cw
                       slot == q \div pw
                       s == IF g.pbig THEN g.np - 1 - slot ELSE slot
                       p == g.n - 1 - ((q % pw) \div g.cw)
                       x == ((compound % RowCompounds(g, ww)) * g.np) + s
                       run == IF g.align THEN ((compound \div RowCompounds(g, ww)) * ww) + x ELSE (compound * g.np) + s
                   IN IF slot >= g.np \/ (g.align /\ x >= ww) \/ run >= ww * hh THEN None
                      ELSE <<run, Channel(g, p), q % g.cw>>

\* ---- Components

\* Fractions of the greatest value: bits are repeated, or those of least significance dropped
Bits(v, n) == [i \in 1..n |-> (v \div Pow2(n - i)) % 2]
Stored(g, c, v) == LET n == Width(g, c) b == Bits(v, g.t)
                   IN IF g.idx THEN [i \in 1..n |-> b[g.t - n + i]] ELSE [i \in 1..n |-> b[((i - 1) % g.t) + 1]]
RECURSIVE Value(_, _)
Value(b, n) == IF n = 0 THEN 0 ELSE (2 * Value(b, n - 1)) + b[n]
Fetched(g, s) == IF g.idx THEN Value(s, Len(s)) ELSE Value([i \in 1..g.t |-> s[((i - 1) % Len(s)) + 1]], g.t)

Blank(g, ww, hh) == [p \in 1..(ww * hh) |-> [c \in 1..g.n |-> [i \in 1..Width(g, c - 1) |-> 0]]]

\* A word is recorded as parts of up to 16 bits, most significant first
PartBits(g) == IF g.wb < 16 THEN g.wb ELSE 16
Parts(g) == g.wb \div PartBits(g)
PartValue(g, ww, hh, s, iw, j) ==
    LET m == PartBits(g)
        bit(i) == LET o == Owner(g, ww, hh, iw, ((Parts(g) - 1 - j) * m) + m - i)
                  IN IF o = None THEN 0 ELSE s[o[1] + 1][o[2] + 1][Len(s[o[1] + 1][o[2] + 1]) - o[3]]
    IN Value([i \in 1..m |-> bit(i)], m)
Memory(g, ww, hh, s) == [u \in 1..(BufferSize(g, ww, hh) * Parts(g)) |-> PartValue(g, ww, hh, s, (u - 1) \div Parts(g), (u - 1) % Parts(g))]

BitAt(g, mem, loc) == LET m == PartBits(g) j == Parts(g) - 1 - (loc[2] \div m) IN (mem[(loc[1] * Parts(g)) + j + 1] \div Pow2(loc[2] % m)) % 2
FromMemory(g, ww, hh, mem) ==
    [p \in 1..(ww * hh) |-> [c \in 1..g.n |-> LET n == Width(g, c - 1) IN
        [i \in 1..n |-> BitAt(g, mem, Loc(g, ww, (p - 1) % ww, (p - 1) \div ww, c - 1, n - i))]]]

\* ---- Operations

In(x, y, bw, bh, p) == LET X == (p - 1) % w Y == (p - 1) \div w IN x <= X /\ X < x + bw /\ y <= Y /\ Y < y + bh
\* comps: components of pixels of the block, row-major
AfterWrite(x, y, bw, bh, comps) ==
    [p \in DOMAIN st |-> IF In(x, y, bw, bh, p)
        THEN LET k == (((((p - 1) \div w) - y) * bw) + (((p - 1) % w) - x)) * f.n IN [c \in 1..f.n |-> Stored(f, c - 1, comps[k + c])]
        ELSE st[p]]
AfterFill(x, y, bw, bh, color) ==
    [p \in DOMAIN st |-> IF In(x, y, bw, bh, p) THEN [c \in 1..f.n |-> Stored(f, c - 1, color[c])] ELSE st[p]]
Read(x, y, bw, bh) ==
    [k \in 1..(bw * bh * f.n) |-> LET q == (k - 1) \div f.n c == ((k - 1) % f.n) + 1
                                  IN Fetched(f, st[((y + (q \div bw)) * w) + x + (q % bw) + 1][c])]

\* ---- Formats describing the same memory

\* Position in memory, counted in bits, of a bit of a word of wb bits on a machine of the given byte order
Physical(g, le, loc) == LET bytes == g.wb \div 8 i == loc[2] \div 8
                        IN (((loc[1] * bytes) + (IF le THEN i ELSE bytes - 1 - i)) * 8) + (loc[2] % 8)
Equivalent(g1, g2, le, ww, hh) ==
    /\ g1.n = g2.n /\ \A c \in 0..(g1.n - 1) : Width(g1, c) = Width(g2, c)
    \* The last word may have room for more pixels than there are
    /\ BufferSize(g2, ww, hh) * g2.wb <= BufferSize(g1, ww, hh) * g1.wb
    /\ \A x \in 0..(ww - 1), y \in 0..(hh - 1), c \in 0..(g1.n - 1) : \A k \in 0..(Width(g1, c) - 1) :
         Physical(g1, le, Loc(g1, ww, x, y, c, k)) = Physical(g2, le, Loc(g2, ww, x, y, c, k))
=============================================================================
