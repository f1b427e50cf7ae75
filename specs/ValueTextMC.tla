----------------------------- MODULE ValueTextMC -----------------------------
(* Integers of a small type in all bases, all small lists with all syntaxes: what is
   written denotes the value, and nothing else that fits does.                  *)
EXTENDS ValueText, TLC, Json
CONSTANTS Los, His, Radices, MaxLen, Codes, MaxText
VARIABLES st
vars == <<st>>
\* A text of each value, constructed
RECURSIVE Write(_, _)
DigitCode(d) == IF d < 10 THEN 48 + d ELSE 55 + d
Write(n, b) == (IF n < b THEN <<>> ELSE Write(n \div b, b)) \o <<DigitCode(n % b)>>
TextOf(n, b) == IF n < 0 THEN <<Minus>> \o Write(-n, b) ELSE Write(n, b)
VInit == st \in {[v |-> v, r |-> r] : v \in (0 - Los)..His, r \in Radices}
VSpec == VInit /\ [][FALSE]_vars
WrittenIs ==
    LET t == TextOf(st.v, st.r) v == Big(st.v) lo == Big(0 - Los) hi == Big(His) IN
    /\ IsTextOf(t, v, st.r, 1, FALSE)
    /\ Denoted(t, st.r, {Minus}, lo, hi) = Val(v)
    /\ Denoted(t, st.r, {Minus}, lo, Big(His - 1)) = (IF st.v = His THEN Bad ELSE Val(v))
    /\ Denoted(t, st.r, {Minus}, Big(1 - Los), hi) = (IF st.v = 0 - Los THEN Bad ELSE Val(v))
    /\ (st.v < 0 => Denoted(t, st.r, {}, lo, hi) = Bad)
    /\ \A w \in {0 - Los, -1, 0, 1, His, st.v + 1, 0 - st.v} : IsTextOf(t, Big(w), st.r, 1, FALSE) = (w = st.v)
\* Lists of texts
Configs == {[sep |-> s, bracketed |-> b, open |-> 91, close |-> 93, space |-> p] : s \in {44, 32}, b \in BOOLEAN, p \in {"none", "allow", "tight", "loose", "auto"}}
LInit == st \in {[es |-> <<>>, c |-> c] : c \in Configs}
LNext == Len(st.es) < MaxLen /\ \E e \in {<<>>, <<49>>, <<50, 51>>} : st' = [st EXCEPT !.es = Append(@, e)]
LSpec == LInit /\ [][LNext]_vars
\* Elements that hold no part of the syntax come back (with separator space, empty elements are swallowed)
ListIs ==
    LET t == ListText(st.es, st.c) IN
    IF st.es = <<>> THEN IsEmptyList(t, st.c)
    ELSE ((st.c.sep # 32 \/ st.c.space = "none") \/ (\A i \in 1..Len(st.es) : st.es[i] # <<>>)) => Pieces(t, st.c) = st.es
\* Shortened sequences
SInit == st \in UNION {[1..n -> 0..2] : n \in 0..4}
SSpec == SInit /\ [][FALSE]_vars
ShortIs == \A m \in 0..5 : \A copy \in BOOLEAN :
    LET n == Shortest(st, m, copy, 0) first == SubSeq(st, 1, n) IN
    /\ (st # <<>> => n >= 1)
    /\ (st # <<>> => FillUp(first, Len(st), copy, 0) = st)
    \* No shorter one would do
    /\ \A k \in AtLeastOne(m)..(n - 1) : FillUp(SubSeq(st, 1, k), Len(st), copy, 0) # st
\* Texts as scripts
TInit == st = <<>>
TNext == Len(st) < MaxText /\ \E c \in Codes : st' = Append(st, c)
TSpec == TInit /\ [][TNext]_vars
IntEmit == PrintT("SCRIPT " \o ToJson([f |-> "int", s |-> st]))
ListEmit == PrintT("SCRIPT " \o ToJson([f |-> "list", s |-> st]))
=============================================================================
