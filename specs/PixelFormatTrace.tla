------------------------- MODULE PixelFormatTrace -------------------------
EXTENDS PixelFormat, TraceBase
TraceInit == l = 1 /\ f = [n |-> 0] /\ w = 0 /\ h = 0 /\ st = <<>>
\* After every change, the whole of the memory is as it should be, including unused bits
Changes(s) == /\ Match("memory", Ev.mem, Memory(f, w, h, s)) /\ st' = s /\ UNCHANGED <<f, w, h>>
TraceNext ==
    \/ IsEvent("reset") /\ f' = Ev.f /\ w' = Ev.w /\ h' = Ev.h
         /\ Match("number of words", Ev.words, BufferSize(Ev.f, Ev.w, Ev.h))
         /\ st' = (IF Ev.clear THEN Blank(Ev.f, Ev.w, Ev.h) ELSE FromMemory(Ev.f, Ev.w, Ev.h, Ev.mem))
         /\ Match("memory", Ev.mem, Memory(Ev.f, Ev.w, Ev.h, st'))
         /\ Match("bits of a transferred component", Ev.t, Ev.f.t)
         /\ Match("greatest width of a component", Ev.depth, Ev.f.depth)
    \/ IsEvent("write") /\ Changes(AfterWrite(Ev.x, Ev.y, Ev.w, Ev.h, Ev.c))
    \/ IsEvent("fill") /\ Changes(AfterFill(Ev.x, Ev.y, Ev.w, Ev.h, Ev.c))
    \/ IsEvent("read") /\ Match("components", Ev.c, Read(Ev.x, Ev.y, Ev.w, Ev.h)) /\ Match("beside tray untouched", Ev.clean, TRUE) /\ UNCHANGED vars
    \* Constructing an image upon a given number of words
    \/ IsEvent("attach") /\ Match("accepted", Ev.ok, Ev.n >= BufferSize(f, Ev.w, Ev.h)) /\ UNCHANGED vars
    \* The description of the format, as given out with the buffer
    \/ IsEvent("describe") /\ Match("described", Ev.ok, TRUE) /\ Match("format", Ev.g, [k \in DOMAIN f \ {"t", "depth"} |-> f[k]])
         /\ Match("the buffer itself", Ev.same, TRUE) /\ UNCHANGED vars
    \* Formats seen as made of words of some other type
    \/ IsEvent("cast") /\ UNCHANGED vars
         /\ (Ev.ok => Match("valid", Ev.valid, TRUE) /\ Match("width of words", Ev.g.wb, Ev.wb))
         /\ (Ev.ok => Match("access is well-defined", Ev.same \/ Ev.bytes, TRUE))
         /\ (Ev.ok => Match("same pixels in same memory", TRUE, Equivalent(Ev.f, Ev.g, Ev.le, Ev.w, Ev.h)))
         /\ (Ev.must => Match("possible", Ev.ok, TRUE))
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
