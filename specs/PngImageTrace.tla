---------------------------- MODULE PngImageTrace ----------------------------
EXTENDS PngImage, TraceBase
Tracked(e, p) == IF e.tracked THEN WholeProgress(p) ELSE p = <<>>
\* What may come of a damaged file
Early(e) == e.res = "failed" /\ e.err = (IF e.named THEN "wrong format" ELSE "not detected")
Failed(e) == e.res = "failed" /\ e.err \in {"bad file", "premature end"}
Damaged(e) ==
    /\ (e.res \in {"failed", "thrown"}) = e.untouched
    /\ CASE e.what = "none" -> e.res = "same"
         [] e.what = "signature" -> Early(e)
         [] e.what = "cut" -> IF e.n < 8 THEN Early(e) ELSE e.n < e.size /\ Failed(e)
         [] e.what = "source" -> IF e.n < 8 THEN e.res = "failed" ELSE e.n < e.size /\ e.res = "failed" /\ e.err = "own"
         [] e.what = "critical" -> Failed(e)
         [] e.what = "ancillary" -> Failed(e) \/ e.res = "same"
         [] e.what = "tracker" -> e.res = "thrown"
         [] e.what \in {"trns", "length", "type"} -> (e.res \in {"same", "other"} \/ (e.res = "failed" /\ e.err \in {"bad file", "premature end", "size"}))
TraceInit == l = 1
TraceNext ==
    \/ /\ IsEvent("load")
       /\ Match("loads", WellFormed(Ev.f) /\ Ev.ok, TRUE) /\ Match("error code", Ev.err, "")
       /\ (IF Ev.ok THEN Match("picture", Ev.pic, Picture(Ev.f)) ELSE TRUE)
       /\ Match("progress", Tracked(Ev, Ev.prog), TRUE)
    \/ /\ IsEvent("save")
       /\ Match("saves", Ev.ok /\ Ev.err = "" /\ Ev.sound /\ WellFormed(Ev.f), TRUE)
       /\ (IF Ev.ok /\ Ev.sound THEN Match("file is of the picture", Picture(Ev.f), Ev.pic) /\ Match("interlaced", Ev.f.inter, Ev.inter) ELSE TRUE)
       /\ Match("loads again", Ev.lok, TRUE) /\ Match("picture loaded", Ev.back, Ev.pic)
       /\ Match("progress", Tracked(Ev, Ev.prog) /\ Tracked(Ev, Ev.prog2), TRUE)
    \/ IsEvent("large") /\ Match("saves and loads", Ev.ok /\ Ev.same /\ WholeProgress(Ev.prog) /\ WholeProgress(Ev.prog2), TRUE)
    \/ IsEvent("damage") /\ Match("fails cleanly", Damaged(Ev), TRUE)
    \/ IsEvent("savefail") /\ Match("fails cleanly", ~Ev.ok /\ Ev.err = (IF Ev.what = "sink" THEN "own" ELSE "thrown") /\ Ev.prefix, TRUE)
    \/ IsEvent("empty") /\ Match("nothing to save", ~Ev.ok /\ Ev.err = "size", TRUE)
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
