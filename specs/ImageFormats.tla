---------------------------- MODULE ImageFormats ----------------------------
(* Which image file format is used for a file. A registry is a sequence of   *)
(* formats, in the order of registration, each with an identifier, and with  *)
(* the MIME types and filename extensions it goes with. A format recognizes  *)
(* contents that start with its magic bytes.                                 *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
Indices(reg) == [k \in 1..Len(reg) |-> k]
Has(s, x) == \E k \in 1..Len(s) : s[k] = x
ByIdent(reg, id) == SelectSeq(Indices(reg), LAMBDA k : reg[k].id = id)
ByMime(reg, m) == SelectSeq(Indices(reg), LAMBDA k : Has(reg[k].mimes, m))
ByExt(reg, x) == SelectSeq(Indices(reg), LAMBDA k : Has(reg[k].exts, x))
MayRegister(reg, f) == ByIdent(reg, f.id) = <<>>
Recognizes(f, bytes) == Len(bytes) >= Len(f.magic) /\ SubSeq(bytes, 1, Len(f.magic)) = f.magic
First(s) == IF s = <<>> THEN 0 ELSE s[1]

(* How close a format is to what is asked for; formats are asked, closest    *)
(* first and then by registration, until one recognizes the contents.        *)
Rank(reg, k, mime, ext) == IF mime # "" /\ Has(reg[k].mimes, mime) THEN 0 ELSE IF ext # "" /\ Has(reg[k].exts, ext) THEN 1 ELSE 2
Before(reg, a, b, mime, ext) == LET ra == Rank(reg, a, mime, ext) rb == Rank(reg, b, mime, ext) IN ra < rb \/ (ra = rb /\ a < b)
Order(reg, mime, ext) == SortSeq(Indices(reg), LAMBDA a, b : Before(reg, a, b, mime, ext))
(* Outcome: which format (0 if none), and which ones were asked              *)
DetectLoad(reg, named, mime, ext, bytes) ==
    IF named # "" THEN LET k == First(ByIdent(reg, named)) IN [k |-> k, err |-> IF k = 0 THEN "unavailable" ELSE "", asked |-> <<>>]
    ELSE LET order == TLCEval(Order(reg, mime, ext))
             hits == SelectSeq(Indices(order), LAMBDA i : Recognizes(reg[order[i]], bytes)) IN
         IF hits = <<>> THEN [k |-> 0, err |-> "not detected", asked |-> order]
         ELSE [k |-> order[hits[1]], err |-> "", asked |-> SubSeq(order, 1, hits[1])]
DetectSave(reg, named, mime, ext) ==
    IF named # "" THEN LET k == First(ByIdent(reg, named)) IN [k |-> k, err |-> IF k = 0 THEN "unavailable" ELSE ""]
    ELSE LET m == IF mime = "" THEN <<>> ELSE ByMime(reg, mime)
             k == IF m # <<>> THEN m[1] ELSE IF ext = "" THEN 0 ELSE First(ByExt(reg, ext)) IN
         [k |-> k, err |-> IF k = 0 THEN "not detected" ELSE ""]
=============================================================================
