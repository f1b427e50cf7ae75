------------------------- MODULE ImageAccessTrace -------------------------
EXTENDS ImageAccess, TraceBase
NoImage == [w |-> 0, h |-> 0, lum |-> FALSE, alpha |-> FALSE, idx |-> FALSE, pal |-> <<>>, px |-> <<>>]
TraceInit == l = 1 /\ im = NoImage /\ src = NoImage /\ ac = DefaultAccess /\ sac = DefaultAccess
\* s: Is it about the source image
TheImage(s) == IF s THEN src ELSE im
TheAccess(s) == IF s THEN sac ELSE ac
SetAccess(s, a) == IF s THEN sac' = a /\ UNCHANGED ac ELSE ac' = a /\ UNCHANGED sac
Written == im' = [im EXCEPT !.px = Ev.px] /\ UNCHANGED <<ac, src, sac>>
TraceNext ==
    \/ IsEvent("reset") /\ im' = Ev.im /\ src' = Ev.src /\ ac' = DefaultAccess /\ sac' = DefaultAccess
    \/ IsEvent("falloff") /\ SetAccess(Ev.s, [TheAccess(Ev.s) EXCEPT !.fh = Ev.h, !.fv = Ev.v]) /\ UNCHANGED <<im, src>>
    \/ IsEvent("mode") /\ ac' = [ac EXCEPT !.op = Ev.op, !.blend = Ev.blend] /\ UNCHANGED <<im, src, sac>>
    \/ IsEvent("color") /\ LET c == StoredColor(TheImage(Ev.s), Ev.p, Ev.lum, Ev.same, Ev.op) IN
         /\ SetAccess(Ev.s, IF Ev.fg THEN [TheAccess(Ev.s) EXCEPT !.fg = c] ELSE [TheAccess(Ev.s) EXCEPT !.bg = c])
         /\ UNCHANGED <<im, src>>
    \/ IsEvent("getcolor") /\ UNCHANGED vars
         /\ Match("color", Ev.p, FetchColor(TheImage(Ev.s), IF Ev.fg THEN TheAccess(Ev.s).fg ELSE TheAccess(Ev.s).bg, Ev.lum, Ev.alpha, Ev.same))
    \/ IsEvent("palette") /\ UNCHANGED vars
         /\ Match("color", Ev.p, FetchColor(TheImage(Ev.s), PaletteColor(TheImage(Ev.s), TheAccess(Ev.s), Ev.i), Ev.lum, Ev.alpha, Ev.same))
    \/ IsEvent("read") /\ UNCHANGED vars /\ Match("beside tray untouched", Ev.clean, TRUE)
         /\ Match("pixels", Ev.p, Block(TheImage(Ev.s), TheAccess(Ev.s), Ev.x, Ev.y, Ev.w, Ev.h, Ev.lum, Ev.alpha, Ev.same))
    \/ IsEvent("fill") /\ Match("exactly the overlap of area and image", TRUE, FillOk(im, ac, Ev.x, Ev.y, Ev.w, Ev.h, IF Ev.fg THEN ac.fg ELSE ac.bg, Ev.px)) /\ Written
    \/ IsEvent("fillall") /\ Match("every pixel", TRUE, FillOk(im, ac, 0, 0, im.w, im.h, IF Ev.fg THEN ac.fg ELSE ac.bg, Ev.px)) /\ Written
    \/ IsEvent("put") /\ Match("exactly the overlap of block and image", TRUE,
                               PutBlockOk(im, ac, Ev.x, Ev.y, Ev.w, Ev.h, Ev.p, Ev.lum, Ev.alpha, Ev.same, Ev.px)) /\ Written
    \/ IsEvent("image") /\ Match("exactly the overlap of box and image", TRUE,
                                 PutImageOk(im, ac, Ev.x, Ev.y, src, sac, Ev.bx, Ev.by, Ev.w, Ev.h, Ev.same, Ev.px)) /\ Written
    \* The whole of the source image, through a reader of its own
    \/ IsEvent("wholeimage") /\ Match("exactly the overlap of images", TRUE,
                                      PutImageOk(im, [ac EXCEPT !.op = IF Ev.own THEN 1 ELSE @, !.blend = IF Ev.own THEN Ev.blend ELSE @], Ev.x, Ev.y,
                                                 src, DefaultAccess, 0, 0, src.w, src.h, Ev.same, Ev.px)) /\ Written
    \/ IsEvent("mask") /\ Match("exactly the overlap of mask and image", TRUE, MaskOk(im, ac, Ev.x, Ev.y, Ev.w, Ev.h, Ev.m, Ev.px)) /\ Written
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
