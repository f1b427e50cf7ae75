---------------------------- MODULE PngImage ----------------------------
(* What picture a PNG file is of. A file is                                  *)
(*   w, h        size                                                        *)
(*   d           bits per sample                                             *)
(*   ct          color type: 0 gray, 2 RGB, 3 palette, 4 gray and alpha,     *)
(*               6 RGB and alpha                                             *)
(*   inter       whether interlaced (Adam7)                                  *)
(*   plte        palette, three bytes for each color, in a row               *)
(*   trns        transparency (as in the chunk), or <<>>                     *)
(*   data        the bytes of the image data, after decompression            *)
(* and a picture is w, h, lum (one color channel, not three), alpha, and px, *)
(* the samples, row by row, each scaled to 16 bits.                          *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
CeilDiv(a, b) == (a + b - 1) \div b
Lo(a, b) == IF a < b THEN a ELSE b
Samples(ct) == CASE ct = 0 -> 1 [] ct = 2 -> 3 [] ct = 3 -> 1 [] ct = 4 -> 2 [] ct = 6 -> 4
Pow2(n) == 2^n
Scale16(v, d) == v * (65535 \div (Pow2(d) - 1))

(* ---- Interlacing: the passes, each the pixels of a lattice               *)
Adam7 == << [x |-> 0, y |-> 0, dx |-> 8, dy |-> 8], [x |-> 4, y |-> 0, dx |-> 8, dy |-> 8],
            [x |-> 0, y |-> 4, dx |-> 4, dy |-> 8], [x |-> 2, y |-> 0, dx |-> 4, dy |-> 4],
            [x |-> 0, y |-> 2, dx |-> 2, dy |-> 4], [x |-> 1, y |-> 0, dx |-> 2, dy |-> 2],
            [x |-> 0, y |-> 1, dx |-> 1, dy |-> 2] >>
Count(n, o, s) == IF n <= o THEN 0 ELSE CeilDiv(n - o, s)
WithSize(w, h, p) == [x |-> p.x, y |-> p.y, dx |-> p.dx, dy |-> p.dy, w |-> Count(w, p.x, p.dx), h |-> Count(h, p.y, p.dy)]
\* Passes without pixels are not there
Passes(w, h, inter) ==
    LET all == IF inter THEN Adam7 ELSE << [x |-> 0, y |-> 0, dx |-> 1, dy |-> 1] >> IN
    SelectSeq([k \in 1..Len(all) |-> WithSize(w, h, all[k])], LAMBDA p : p.w > 0 /\ p.h > 0)

(* ---- Filtering                                                           *)
Abs(v) == IF v < 0 THEN -v ELSE v
Paeth(a, b, c) ==
    LET p == a + b - c pa == Abs(p - a) pb == Abs(p - b) pc == Abs(p - c) IN
    IF pa <= pb /\ pa <= pc THEN a ELSE IF pb <= pc THEN b ELSE c
Guess(filter, a, b, c) == CASE filter = 0 -> 0 [] filter = 1 -> a [] filter = 2 -> b [] filter = 3 -> (a + b) \div 2 [] filter = 4 -> Paeth(a, b, c)
\* The bytes of a line, given the one above, and how many bytes to the left to look
At(s, k) == IF k < 1 THEN 0 ELSE s[k]
UnfilterLine(filter, raw, above, back) ==
    FoldLeft(LAMBDA acc, k : Append(acc, (raw[k] + Guess(filter, At(acc, k - back), above[k], At(above, k - back))) % 256), <<>>, [k \in 1..Len(raw) |-> k])
FilterLine(filter, line, above, back) ==
    [k \in 1..Len(line) |-> (line[k] - Guess(filter, At(line, k - back), above[k], At(above, k - back))) % 256]

(* ---- Lines, one for each row of each pass                                *)
Bits(f) == f.d * Samples(f.ct)
LineBytes(f, w) == CeilDiv(w * Bits(f), 8)
Back(f) == IF Bits(f) < 8 THEN 1 ELSE Bits(f) \div 8
Zero(n) == [k \in 1..n |-> 0]
\* <<lines>> of a pass whose data starts after o bytes
PassLines(f, p, o) ==
    LET n == LineBytes(f, p.w) IN
    FoldLeft(LAMBDA acc, r :
                 LET at == o + (r - 1) * (n + 1) IN
                 Append(acc, UnfilterLine(f.data[at + 1], SubSeq(f.data, at + 2, at + 1 + n), IF r = 1 THEN Zero(n) ELSE acc[r - 1], Back(f))),
             <<>>, [r \in 1..p.h |-> r])
PassSize(f, p) == p.h * (LineBytes(f, p.w) + 1)
DataSize(f) == FoldLeft(LAMBDA acc, p : acc + PassSize(f, p), 0, Passes(f.w, f.h, f.inter))
AllLines(f) ==
    FoldLeft(LAMBDA acc, p : [o |-> acc.o + PassSize(f, p), lines |-> Append(acc.lines, PassLines(f, p, acc.o))],
             [o |-> 0, lines |-> <<>>], Passes(f.w, f.h, f.inter)).lines

(* ---- Samples                                                             *)
\* The sample number i (from 0) of a line
Sample(line, d, i) ==
    IF d = 16 THEN line[2 * i + 1] * 256 + line[2 * i + 2]
    ELSE (line[((i * d) \div 8) + 1] \div Pow2(8 - d - ((i * d) % 8))) % Pow2(d)
PassOf(passes, x, y) == CHOOSE k \in 1..Len(passes) : LET p == passes[k] IN x >= p.x /\ y >= p.y /\ (x - p.x) % p.dx = 0 /\ (y - p.y) % p.dy = 0
RawPixel(f, passes, lines, x, y) ==
    LET k == PassOf(passes, x, y) p == passes[k] line == lines[k][((y - p.y) \div p.dy) + 1] n == Samples(f.ct) i == (x - p.x) \div p.dx IN
    [c \in 1..n |-> Sample(line, f.d, i * n + c - 1)]
Word(s, k) == s[2 * k - 1] * 256 + s[2 * k]
\* Colors of the palette and transparent colors become real colors and an alpha channel
HasTrns(f) == f.trns # <<>> /\ f.ct \in {0, 2, 3}
Pixel(f, raw) ==
    CASE f.ct = 3 -> LET i == raw[1] IN
                     [c \in 1..3 |-> f.plte[3 * i + c] * 257] \o
                     (IF HasTrns(f) THEN << IF i < Len(f.trns) THEN f.trns[i + 1] * 257 ELSE 65535 >> ELSE <<>>)
      [] f.ct \in {0, 2} -> [c \in 1..Len(raw) |-> Scale16(raw[c], f.d)] \o
                     (IF HasTrns(f) THEN << IF \A c \in 1..Len(raw) : raw[c] = Word(f.trns, c) % Pow2(f.d) THEN 0 ELSE 65535 >> ELSE <<>>)
      [] OTHER -> [c \in 1..Len(raw) |-> Scale16(raw[c], f.d)]
Lum(f) == f.ct \in {0, 4}
Alpha(f) == f.ct \in {4, 6} \/ HasTrns(f)
WellFormed(f) ==
    /\ f.w >= 1 /\ f.h >= 1 /\ Len(f.data) = DataSize(f)
    /\ f.d \in (CASE f.ct = 0 -> {1, 2, 4, 8, 16} [] f.ct = 3 -> {1, 2, 4, 8} [] OTHER -> {8, 16})
Picture(f) ==
    LET passes == TLCEval(Passes(f.w, f.h, f.inter))
        lines == TLCEval(AllLines(f)) IN
    [w |-> f.w, h |-> f.h, lum |-> Lum(f), alpha |-> Alpha(f),
     px |-> FlattenSeq([i \in 1..(f.w * f.h) |-> Pixel(f, RawPixel(f, passes, lines, (i - 1) % f.w, (i - 1) \div f.w))])]

(* ---- Progress: parts of a whole, and the whole is reached last           *)
Progress(seq) == \A k \in 1..Len(seq) : seq[k][1] > 0 /\ seq[k][1] <= seq[k][2]
WholeProgress(seq) == /\ Progress(seq) /\ seq # <<>> /\ seq[Len(seq)][1] = seq[Len(seq)][2]
=============================================================================
