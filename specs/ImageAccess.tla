---------------------------- MODULE ImageAccess ----------------------------
(* Reading and writing of images (Reader, Writer).

   An image is a grid of pixels.  A reader extends it to a plane: in each
   direction, a position outside the image is folded back into it (edge,
   repeat), or has the background color.  A writer changes exactly those
   pixels of the image that lie inside the written box, each as determined by
   the written pixel, opacity, and blending.

   A pixel is an opacity code times 2^24, plus a 24 bit RGB color; the code is
   127 when opaque, 0 when transparent. Conversions are specified for opaque and
   transparent pixels (and all others where nothing is to be converted).

   im: image   [w, h, lum, alpha, idx, pal, px]    (px: row-major)
   ac: reader / writer [fh, fv, bg, fg, op, blend]                            *)
EXTENDS Integers, Sequences

VARIABLES im, ac, src, sac
vars == <<im, ac, src, sac>>

Unit == 16777216
Full == 127
Alpha(p) == p \div Unit
Opaque(p) == Alpha(p) = Full
Solid(c) == (Full * Unit) + c
Unspecified == -2                       \* never recorded
\* In floating point form, colors are multiplied by alpha
Float(p) == IF Opaque(p) THEN p ELSE IF Alpha(p) = 0 THEN 0 ELSE Unspecified
OverBlack(p) == IF Opaque(p) THEN p ELSE IF Alpha(p) = 0 THEN Solid(0) ELSE Unspecified
Convert(p, exact, alpha) == LET q == IF exact THEN p ELSE Float(p) IN IF alpha THEN q ELSE OverBlack(q)

DefaultAccess == [fh |-> "background", fv |-> "background", bg |-> 0, fg |-> Solid(Unit - 1), op |-> 1, blend |-> FALSE]

\* ---- Reading

Fold(mode, i, n) ==
    CASE mode = "background" -> IF i >= 0 /\ i < n THEN i ELSE -1
      [] mode = "edge" -> IF i < 0 THEN 0 ELSE IF i >= n THEN n - 1 ELSE i
      [] mode = "repeat" -> i % n

Resolve(m, a, raw) == IF m.idx THEN IF raw < Len(m.pal) THEN m.pal[raw + 1] ELSE a.bg ELSE raw

At(m, a, x, y) ==
    IF m.w = 0 \/ m.h = 0 THEN a.bg
    ELSE LET X == Fold(a.fh, x, m.w) Y == Fold(a.fv, y, m.h)
         IN IF X < 0 \/ Y < 0 THEN a.bg ELSE Resolve(m, a, m.px[(Y * m.w) + X + 1])

\* lum, alpha: color space and presence of alpha in the result. same: same representation of components as in image
Block(m, a, x, y, w, h, lum, alpha, same) ==
    LET exact == same /\ lum = m.lum /\ (m.alpha => alpha)
    IN [k \in 1..(w * h) |-> Convert(At(m, a, x + ((k - 1) % w), y + ((k - 1) \div w)), exact, alpha)]

\* ---- Colors

StoredColor(m, p, lum, same, opacity) == IF opacity = 1 /\ lum = m.lum /\ same THEN p ELSE IF opacity = 0 THEN 0 ELSE Float(p)
FetchColor(m, p, lum, alpha, same) == Convert(p, same /\ lum = m.lum, alpha)
PaletteColor(m, a, i) == IF m.idx /\ i < Len(m.pal) THEN m.pal[i + 1] ELSE a.bg

\* ---- Writing

Stored(m, a, old, p, lossless) ==
    LET q == IF lossless THEN p ELSE IF a.op = 0 THEN 0 ELSE Float(p)
        r == IF lossless \/ ~a.blend THEN q ELSE IF Opaque(q) THEN q ELSE Float(old)
    IN IF m.alpha THEN r ELSE OverBlack(r)

\* The color itself when the palette has it, and otherwise one of the colors of the palette
IndexOk(m, c, i) ==
    LET has == {k \in 1..Len(m.pal) : (IF m.alpha THEN Float(m.pal[k]) ELSE m.pal[k]) = c}
    IN IF has # {} THEN i + 1 \in has ELSE IF m.pal = <<>> THEN i = 0 ELSE i < Len(m.pal)

PixelOk(m, a, old, p, lossless, new) ==
    LET c == Stored(m, a, Resolve(m, a, old), p, lossless)
    IN IF m.idx THEN IndexOk(m, c, new) ELSE new = c

Inside(x, y, w, h, X, Y) == X >= x /\ Y >= y /\ X - w < x /\ Y - h < y    \* without overflow
PX(m, k) == (k - 1) % m.w
PY(m, k) == (k - 1) \div m.w

\* src(X, Y): The pixel written at position (X, Y) of the image
WriteOk(m, a, x, y, w, h, pixel(_, _), lossless, new) ==
    /\ Len(new) = Len(m.px)
    /\ \A k \in 1..Len(new) :
         LET X == PX(m, k) Y == PY(m, k)
         IN IF Inside(x, y, w, h, X, Y) THEN PixelOk(m, a, m.px[k], pixel(X, Y), lossless, new[k]) ELSE new[k] = m.px[k]

FillOk(m, a, x, y, w, h, color, new) ==
    LET pixel(X, Y) == color
    IN WriteOk(m, a, x, y, w, h, pixel, ~m.idx /\ a.op = 1 /\ (~a.blend \/ Opaque(color)), new)

Lossless(m, a, lum, alpha, same) == ~m.idx /\ same /\ lum = m.lum /\ (alpha => m.alpha) /\ a.op = 1 /\ ~(a.blend /\ alpha)

PutBlockOk(m, a, x, y, w, h, px, lum, alpha, same, new) ==
    LET pixel(X, Y) == px[((Y - y) * w) + (X - x) + 1]
    IN WriteOk(m, a, x, y, w, h, pixel, Lossless(m, a, lum, alpha, same), new)

\* Box (bx, by, w, h) of image s, as seen by reader b, is put at (x, y)
PutImageOk(m, a, x, y, s, b, bx, by, w, h, same, new) ==
    LET pixel(X, Y) == At(s, b, bx + (X - x), by + (Y - y))
    IN WriteOk(m, a, x, y, w, h, pixel, Lossless(m, a, s.lum, s.alpha, same), new)

\* mask: set of positions in the row-major block at which the foreground shows
MaskOk(m, a, x, y, w, h, mask, new) ==
    LET pixel(X, Y) == IF mask[((Y - y) * w) + (X - x) + 1] = 255 /\ Opaque(Float(a.fg)) THEN Float(a.fg) ELSE Float(a.bg)
    IN WriteOk(m, a, x, y, w, h, pixel, FALSE, new)
=============================================================================
