---------------------------- MODULE ImageFormatsTrace ----------------------------
EXTENDS ImageFormats, TraceBase
VARIABLES reg, src, typ
tvars == <<reg, src, typ>>
Id(k) == IF k = 0 THEN "" ELSE reg[k].id
Idents(ks) == [i \in 1..Len(ks) |-> reg[ks[i]].id]
NoSource == [bytes |-> <<>>, pos |-> 0, failing |-> FALSE]
Nothing == [k \in 1..4 |-> 0]
Loaded(e) ==
    LET d == DetectLoad(reg, e.named, e.mime, e.ext, e.bytes) IN
    /\ Match("formats asked", e.asked, Idents(d.asked))
    /\ Match("format used", e.used, Id(d.k))
    /\ Match("outcome", e.err, IF d.k = 0 THEN d.err ELSE IF Recognizes(reg[d.k], e.bytes) THEN "" ELSE "wrong format")
    /\ Match("success", e.ok /\ e.image, e.err = "") /\ Match("image only on success", e.image, e.err = "")
    /\ Match("the format gets everything", e.got, IF d.k = 0 THEN <<>> ELSE e.bytes)
    /\ Match("special configuration", e.special, e.want)
Saved(e) ==
    LET d == DetectSave(reg, e.named, e.mime, e.ext) IN
    /\ Match("format used", e.used, Id(d.k)) /\ Match("written", e.written, Id(d.k))
    /\ Match("outcome", e.err, d.err) /\ Match("success", e.ok, e.err = "")
    /\ Match("special configuration", e.special, e.want)
\* Reading is of what comes next, and at least something of it if there is something
ReadRight(e) ==
    LET rest == SubSeq(src.bytes, src.pos + 1, Len(src.bytes)) n == Len(e.got) IN
    /\ n <= e.n /\ n <= Len(rest) /\ e.got = SubSeq(rest, 1, n) /\ e.sane
    /\ (IF e.ok THEN (IF e.some THEN (n > 0 \/ e.n = 0 \/ rest = <<>>) ELSE (n = e.n \/ n = Len(rest))) ELSE src.failing)
TraceInit == l = 1 /\ reg = <<>> /\ src = NoSource /\ typ = Nothing
TraceNext ==
    \/ IsEvent("registry") /\ reg' = <<>> /\ UNCHANGED <<src, typ>>
    \/ /\ IsEvent("register") /\ Match("registered", Ev.ok, MayRegister(reg, Ev.f))
       /\ reg' = (IF MayRegister(reg, Ev.f) THEN Append(reg, Ev.f) ELSE reg)
       /\ Match("number of formats", Ev.n, Len(reg')) /\ UNCHANGED <<src, typ>>
    \/ /\ IsEvent("lookup")
       /\ Match("by identifier", Ev.byid, Id(First(ByIdent(reg, Ev.id))))
       /\ Match("by MIME type", <<Ev.m1, Ev.ml>>, <<Id(First(ByMime(reg, Ev.mime))), Idents(ByMime(reg, Ev.mime))>>)
       /\ Match("by extension", <<Ev.x1, Ev.xl>>, <<Id(First(ByExt(reg, Ev.ext))), Idents(ByExt(reg, Ev.ext))>>)
       /\ Match("all", Ev.all, Idents(Indices(reg))) /\ Match("index out of range", Ev.out, TRUE) /\ UNCHANGED tvars
    \/ IsEvent("load") /\ Loaded(Ev) /\ UNCHANGED tvars
    \/ IsEvent("save") /\ Saved(Ev) /\ UNCHANGED tvars
    \/ IsEvent("rnew") /\ src' = [bytes |-> Ev.bytes, pos |-> 0, failing |-> Ev.failing] /\ UNCHANGED <<reg, typ>>
    \/ IsEvent("rread") /\ Match("reading", ReadRight(Ev), TRUE) /\ src' = [src EXCEPT !.pos = src.pos + Len(Ev.got), !.failing = src.failing /\ Ev.ok] /\ UNCHANGED <<reg, typ>>
    \/ IsEvent("rrewind") /\ src' = [src EXCEPT !.pos = 0] /\ UNCHANGED <<reg, typ>>
    \/ IsEvent("rrelease") /\ UNCHANGED tvars
    \/ IsEvent("tnew") /\ typ' = Nothing /\ UNCHANGED <<reg, src>>
    \/ IsEvent("tput") /\ typ' = [typ EXCEPT ![Ev.k] = Ev.n] /\ UNCHANGED <<reg, src>>
    \/ IsEvent("tget") /\ Match("object of the type", Ev.v, typ[Ev.k]) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][TraceNext]_<<l, tvars>>
=============================================================================
