---------------------------- MODULE ImageFormatsMC ----------------------------
(* All small registries and all that can be asked of them.                   *)
EXTENDS ImageFormats, Json
CONSTANTS Ids, MimeSets, ExtSets, Magics, MaxFormats, Contents
VARIABLES reg, ask
vars == <<reg, ask>>
None == [op |-> "none"]
MimeList(n) == CASE n = 0 -> <<>> [] n = 1 -> <<"a/x">> [] n = 2 -> <<"a/y">> [] n = 3 -> <<"a/x", "a/y">>
ExtList(n) == CASE n = 0 -> <<>> [] n = 1 -> <<".p">> [] n = 2 -> <<".q">> [] n = 3 -> <<".q", ".p">>
Magic(n) == CASE n = 0 -> <<>> [] n = 1 -> <<1>> [] n = 2 -> <<1, 2>> [] n = 3 -> <<2>>
Content(n) == CASE n = 0 -> <<>> [] n = 1 -> <<1>> [] n = 2 -> <<1, 2, 9>> [] n = 3 -> <<2, 1>>
Formats == {[id |-> i, mimes |-> MimeList(m), exts |-> ExtList(x), magic |-> Magic(g)] : i \in Ids, m \in MimeSets, x \in ExtSets, g \in Magics}
Init == reg = <<>> /\ ask = None
Register == ask = None /\ Len(reg) < MaxFormats /\ \E f \in Formats : MayRegister(reg, f) /\ reg' = Append(reg, f) /\ UNCHANGED ask
Ask == ask = None /\ UNCHANGED reg /\
    \E named \in {"", "zz"} \cup Ids, mime \in {"", "a/x", "a/z"}, ext \in {"", ".p", ".z"}, c \in Contents :
        ask' = [op |-> "ask", named |-> named, mime |-> mime, ext |-> ext, bytes |-> Content(c)]
Spec == Init /\ [][Register \/ Ask]_vars
\* The way it is done: those of the type, then those of the extension, then the rest, without asking again
Stage(acc, ks) == FoldLeft(LAMBDA a, k : IF a.k # 0 \/ Has(a.asked, k) THEN a
                                         ELSE [k |-> IF Recognizes(reg[k], ask.bytes) THEN k ELSE 0, asked |-> Append(a.asked, k)], acc, ks)
Staged == Stage(Stage(Stage([k |-> 0, asked |-> <<>>], IF ask.mime = "" THEN <<>> ELSE ByMime(reg, ask.mime)),
                      IF ask.ext = "" THEN <<>> ELSE ByExt(reg, ask.ext)), Indices(reg))
StagedAgrees == ask # None =>
    LET d == DetectLoad(reg, ask.named, ask.mime, ask.ext, ask.bytes) IN
    IF ask.named # "" THEN d.asked = <<>> /\ (d.k = 0) = (d.err # "")
    ELSE Staged = [k |-> d.k, asked |-> d.asked]
\* Somebody who knows the contents is found, and only such ones; the hints can only change who
FindsSomebody == ask # None /\ ask.named = "" =>
    LET d == DetectLoad(reg, "", ask.mime, ask.ext, ask.bytes) IN
    /\ (d.k # 0) = (\E k \in 1..Len(reg) : Recognizes(reg[k], ask.bytes))
    /\ (d.k # 0) => Recognizes(reg[d.k], ask.bytes)
    /\ (d.k = 0) => ToSet(d.asked) = 1..Len(reg)
    /\ \A i, j \in 1..Len(d.asked) : d.asked[i] = d.asked[j] => i = j
SaveIsAssociated == ask # None /\ ask.named = "" =>
    LET d == DetectSave(reg, "", ask.mime, ask.ext) IN
    /\ (d.k # 0) => \/ Has(reg[d.k].mimes, ask.mime)
                    \/ (Has(reg[d.k].exts, ask.ext) /\ \A k \in 1..Len(reg) : ~Has(reg[k].mimes, ask.mime))
    /\ (d.k # 0) => \A k \in 1..(d.k - 1) : ~(Has(reg[k].mimes, ask.mime))
IdentsDiffer == \A i, j \in 1..Len(reg) : reg[i].id = reg[j].id => i = j
EmitInv == ask # None => PrintT("SCRIPT " \o ToJson([reg |-> reg, ask |-> ask]))
=============================================================================
