---------------------------- MODULE PngImageMC ----------------------------
(* Pictures and the files made of them: interlacing visits each pixel once,  *)
(* filtering can be undone, and the file is a file of the picture.           *)
EXTENDS PngImage, Json
CONSTANTS MaxW, MaxH, Kinds, Seeds, MaxN, Values
VARIABLES w, h, kind, inter, seed
vars == <<w, h, kind, inter, seed>>
\* Kinds of files: color type * 100 + depth
Ct(k) == k \div 100
D(k) == k % 100
Init == w = 0 /\ h \in 1..MaxH /\ kind \in Kinds /\ inter \in BOOLEAN /\ seed \in Seeds
Next == w < MaxW /\ w' = w + 1 /\ UNCHANGED <<h, kind, inter, seed>>
Spec == Init /\ [][Next]_vars
\* Some bytes that look random
Mix(a, b) == ((a * 75 + b * 31 + seed * 97 + ((a + b * 7) \div 3) * 113 + 29) % 65537)
Byte(a, b) == Mix(Mix(a, b) % 4001, b + 5) % 256
Bare == [w |-> w, h |-> h, d |-> D(kind), ct |-> Ct(kind), inter |-> inter, plte |-> <<>>, trns |-> <<>>, data |-> <<>>]
NumColors == Pow2(D(kind))
Dressed == [Bare EXCEPT
    !.plte = IF Ct(kind) = 3 THEN [k \in 1..(3 * NumColors) |-> Byte(k, 77)] ELSE <<>>,
    !.trns = IF seed % 2 = 0 THEN <<>> ELSE CASE Ct(kind) = 3 -> [k \in 1..CeilDiv(NumColors, 2) |-> Byte(k, 78)]
                                               [] Ct(kind) = 0 -> IF D(kind) = 16 THEN <<Byte(1, 79), Byte(2, 79)>> ELSE <<0, Byte(1, 79) % Pow2(D(kind))>>
                                               [] Ct(kind) = 2 -> IF D(kind) = 16 THEN [k \in 1..6 |-> Byte(k, 79)] ELSE [k \in 1..6 |-> IF k % 2 = 1 THEN 0 ELSE Byte(k, 79)]
                                               [] OTHER -> <<>>]
\* Raw samples of a pixel, and the lines they make
RawOf(x, y) == [c \in 1..Samples(Ct(kind)) |-> LET b == Byte(x * 17 + c, y) IN IF D(kind) = 16 THEN b * 256 + Byte(x, y * 19 + c) ELSE b % Pow2(D(kind))]
LineOf(f, p, r) ==
    LET n == Samples(f.ct)
        s == [i \in 1..(p.w * n) |-> RawOf(p.x + ((i - 1) \div n) * p.dx, p.y + (r - 1) * p.dy)[((i - 1) % n) + 1]] IN
    [k \in 1..LineBytes(f, p.w) |->
        IF f.d = 16 THEN LET v == s[((k - 1) \div 2) + 1] IN IF k % 2 = 1 THEN v \div 256 ELSE v % 256
        ELSE LET per == 8 \div f.d IN FoldLeft(LAMBDA acc, j : acc + (LET i == (k - 1) * per + j IN IF i <= Len(s) THEN s[i] * Pow2(8 - f.d * j) ELSE 0), 0, [j \in 1..per |-> j])]
PassData(f, p) ==
    FlattenSeq([r \in 1..p.h |-> LET filter == (r * 3 + p.x + p.dy + seed) % 5 IN
        <<filter>> \o FilterLine(filter, LineOf(f, p, r), IF r = 1 THEN Zero(LineBytes(f, p.w)) ELSE LineOf(f, p, r - 1), Back(f))])
Encoded(f) == LET ps == Passes(f.w, f.h, f.inter) IN FlattenSeq([k \in 1..Len(ps) |-> PassData(f, ps[k])])
File == TLCEval([Dressed EXCEPT !.data = Encoded(Dressed)])
DecodesBack == w > 0 => LET f == File IN
    WellFormed(f) /\ Picture(f).px = FlattenSeq([i \in 1..(w * h) |-> Pixel(f, RawOf((i - 1) % w, (i - 1) \div w))])
\* Every pixel is visited exactly once
Cover == LET ps == Passes(w, h, inter) IN
    /\ \A x \in 0..(w - 1), y \in 0..(h - 1) :
           Cardinality({k \in 1..Len(ps) : \E i \in 0..(ps[k].w - 1), j \in 0..(ps[k].h - 1) : x = ps[k].x + i * ps[k].dx /\ y = ps[k].y + j * ps[k].dy}) = 1
    /\ FoldLeft(LAMBDA acc, p : acc + p.w * p.h, 0, ps) = w * h
EmitInv == w > 0 => PrintT("SCRIPT " \o ToJson(File))
\* Filtering can be undone, whatever was there
FInit == w = 0 /\ h \in 1..MaxN /\ kind \in 0..4 /\ inter = FALSE /\ seed \in [1..(2 * h) -> Values]
FSpec == FInit /\ [][FALSE]_vars
FilterInverse == \A back \in 1..h : LET line == SubSeq(seed, 1, h) above == SubSeq(seed, h + 1, 2 * h) IN
    /\ UnfilterLine(kind, FilterLine(kind, line, above, back), above, back) = line
    /\ FilterLine(kind, UnfilterLine(kind, line, above, back), above, back) = line
=============================================================================
