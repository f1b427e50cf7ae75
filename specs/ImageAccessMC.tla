--------------------------- MODULE ImageAccessMC ---------------------------
(* A small image being written to in every way, and its plane of falloff.  *)
EXTENDS ImageAccess, FiniteSets, TLC, Json
CONSTANTS Side, Colors, Steps

VARIABLES n, last      \* number of writes; what was done last and the image before it
mcvars == <<vars, n, last>>

Modes == {"background", "edge", "repeat"}
Pixels == {Solid(c) : c \in Colors} \cup {0}
Img(w, h, al, px) == [w |-> w, h |-> h, lum |-> FALSE, alpha |-> al, idx |-> FALSE, pal |-> <<>>, px |-> px]
Blank(w, h, al) == Img(w, h, al, [k \in 1..(w * h) |-> IF al THEN 0 ELSE Solid(0)])
Nothing == [kind |-> "none"]
MCInit == /\ \E w, h \in 0..Side, al \in BOOLEAN : im = Blank(w, h, al)
          /\ ac \in {[DefaultAccess EXCEPT !.op = o, !.blend = b] : o \in {0, 1}, b \in BOOLEAN}
          /\ src = Blank(1, 1, FALSE) /\ sac = DefaultAccess /\ n = 0 /\ last = Nothing

\* Writing of single boxes of one color
Boxes == (-1..Side) \X (-1..Side) \X (0..2) \X (0..2)
Values(k, x, y, w, h, p, ll) ==
    IF Inside(x, y, w, h, PX(im, k), PY(im, k)) THEN Stored(im, ac, im.px[k], p, ll) ELSE im.px[k]
Write == /\ n < Steps
         /\ \E b \in Boxes, p \in Pixels :
              LET ll == Lossless(im, ac, FALSE, TRUE, TRUE)
                  new == [k \in 1..Len(im.px) |-> Values(k, b[1], b[2], b[3], b[4], p, ll)]
                  full == [k \in 1..(b[3] * b[4]) |-> p]
              IN /\ Assert(PutBlockOk(im, ac, b[1], b[2], b[3], b[4], full, FALSE, TRUE, TRUE, new), "block")
                 /\ im' = [im EXCEPT !.px = new]
                 /\ last' = [kind |-> "box", b |-> b, p |-> p, old |-> im]
         /\ n' = n + 1 /\ UNCHANGED <<ac, src, sac>>
\* Copying a box from another place of the plane of the image as it was
Copy == /\ n < Steps
        /\ \E b \in Boxes, s \in (-1..Side) \X (-1..Side) :
             LET ll == Lossless(im, ac, FALSE, im.alpha, TRUE)
                 q(k) == At(im, ac, s[1] + PX(im, k) - b[1], s[2] + PY(im, k) - b[2])
                 new == [k \in 1..Len(im.px) |-> Values(k, b[1], b[2], b[3], b[4], q(k), ll)]
             IN /\ Assert(PutImageOk(im, ac, b[1], b[2], im, ac, s[1], s[2], b[3], b[4], TRUE, new)
                          \/ ~im.alpha, "copy")
                /\ im' = [im EXCEPT !.px = IF im.alpha THEN new ELSE im.px]
                /\ last' = [kind |-> "copy", b |-> b, old |-> im]
        /\ n' = n + 1 /\ UNCHANGED <<ac, src, sac>>
MCSpec == MCInit /\ [][Write \/ Copy]_mcvars

Within(b, k, m) == PX(m, k) \in b[1]..(b[1] + b[3] - 1) /\ PY(m, k) \in b[2]..(b[2] + b[4] - 1)
Frame == last.kind # "none" => \A k \in 1..Len(im.px) : ~Within(last.b, k, im) => im.px[k] = last.old.px[k]
Effect == last.kind = "box" => \A k \in 1..Len(im.px) : Within(last.b, k, im) =>
            /\ (ac.op = 1 /\ Opaque(last.p) => im.px[k] = last.p)
            /\ (ac.op = 1 /\ ~ac.blend => im.px[k] = IF im.alpha THEN last.p ELSE OverBlack(last.p))
            /\ (ac.blend /\ (ac.op = 0 \/ ~Opaque(last.p)) => im.px[k] = last.old.px[k])
            /\ (ac.op = 0 /\ ~ac.blend => im.px[k] = IF im.alpha THEN 0 ELSE Solid(0))
Defined == \A k \in 1..Len(im.px) : im.px[k] \in Pixels \cup {Solid(0)} /\ (~im.alpha => Opaque(im.px[k]))

\* ---- The plane
FoldRight ==
    \A size \in 1..(Side + 2), i \in -7..9, m \in Modes : LET f == Fold(m, i, size) IN
        /\ f \in -1..(size - 1) /\ (f = -1 <=> m = "background" /\ ~(i \in 0..(size - 1)))
        /\ (i \in 0..(size - 1) => f = i)
        /\ (m = "repeat" => f = Fold(m, i + size, size))
        /\ (m = "edge" => \A j \in 0..(size - 1) : (i - j) * (i - j) >= (i - f) * (i - f))
PlaneRight ==
    \A x, y \in -3..(Side + 3), fh, fv \in Modes :
        LET a == [ac EXCEPT !.fh = fh, !.fv = fv, !.bg = -7] p == At(im, a, x, y) IN
        IF x \in 0..(im.w - 1) /\ y \in 0..(im.h - 1) THEN p = im.px[(y * im.w) + x + 1]
        ELSE IF im.w = 0 \/ im.h = 0 THEN p = -7
        ELSE /\ (p = -7 <=> (fh = "background" /\ ~(x \in 0..(im.w - 1))) \/ (fv = "background" /\ ~(y \in 0..(im.h - 1))))
             /\ (p # -7 => p \in {im.px[k] : k \in 1..Len(im.px)})

\* ---- Scripts: blocks around an image
Reach == <<-3, -2, -1, 0, 1, 2, 3, 4>>
GenInit == /\ \E w, h \in 0..Side : im = Blank(w, h, FALSE)
           /\ \E fh, fv \in Modes : ac = [DefaultAccess EXCEPT !.fh = fh, !.fv = fv]
           /\ src = Blank(0, 0, FALSE) /\ sac = DefaultAccess /\ n = 0 /\ last = Nothing
GenSpec == GenInit /\ [][FALSE]_mcvars
Shapes == <<<<1, 1>>, <<2, 1>>, <<1, 3>>, <<3, 2>>, <<5, 5>>>>
Blocks == [k \in 1..(5 * 64) |-> LET s == Shapes[((k - 1) \div 64) + 1] IN
             <<Reach[((k - 1) % 8) + 1], Reach[(((k - 1) \div 8) % 8) + 1], s[1], s[2]>>]
EmitInv == PrintT("SCRIPT " \o ToJson(<<im.w, im.h, ac.fh, ac.fv, Blocks>>))
=============================================================================
