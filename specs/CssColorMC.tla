---------------------------- MODULE CssColorMC ----------------------------
(* Texts, made of pieces: as scripts for the implementation, and checks that the
   ways of writing a color denote it.                                          *)
EXTENDS CssColor, TLC, Json
CONSTANTS Pieces, MaxPieces, Digits, MaxDigits, Comps
VARIABLES text
vars == <<text>>
P == <<<<114, 103, 98>>, <<97>>, <<104, 115, 108>>, <<40>>, <<41>>, <<44>>, <<32>>, <<49>>, <<48, 46, 53>>, <<37>>, <<45>>, <<120>>>>
\* Any sequence of pieces
Init == text = <<>>
Next == Len(text) < MaxPieces /\ \E p \in Pieces : text' = Append(text, p)
Spec == Init /\ [][Next]_vars
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE P[Head(s)] \o Flat(Tail(s))
EmitInv == PrintT("SCRIPT " \o ToJson([t |-> Flat(text)]))
\* Functional forms
FInit == text \in {<<l, 4>> : l \in {1, 3}} \cup {<<1, 2, 4>>, <<3, 2, 4>>}
FNext == Len(text) < MaxPieces /\ text[Len(text)] # 5 /\ \E p \in Pieces : text' = Append(text, p)
FSpec == FInit /\ [][FNext]_vars
FEmit == text[Len(text)] = 5 => PrintT("SCRIPT " \o ToJson([t |-> Flat(text)]))
\* Hexadecimal forms
HNext == Len(text) < MaxDigits /\ \E d \in Digits : text' = Append(text, d)
HSpec == Init /\ [][HNext]_vars
HEmit == PrintT("SCRIPT " \o ToJson([t |-> <<35>> \o text]))
\* What a hexadecimal color is written as denotes it
Dig(n) == IF n < 10 THEN 48 + n ELSE 55 + n
Two(v) == <<Dig(v \div 16), Dig(v % 16)>>
CInit == text \in Comps \X Comps \X Comps \X Comps
CSpec == CInit /\ [][FALSE]_vars
WrittenIs ==
    LET long == Two(text[1]) \o Two(text[2]) \o Two(text[3]) \o Two(text[4])
        color == [k |-> "hex", c |-> text] IN
    /\ ParseHex(long) = color
    /\ (text[4] = 255 => ParseHex(SubSeq(long, 1, 6)) = color)
    /\ ((\A k \in 1..4 : text[k] % 17 = 0) => ParseHex([k \in 1..4 |-> long[2 * k]]) = color)
    /\ (\A k \in 1..4 : AsHex(color)[k] = {text[k]})
    \* Components are the same in 255ths and in hexadecimal
    /\ (\A k \in 1..3 : AsHex([k |-> "rgb", c |-> [i \in 1..4 |-> 1000 * text[i]]])[k] = {text[k]})
\* Grays are without hue
GrayIs == LET li == text[1] % 101 IN \A h \in {0, 100, 345} : LET x == AsHex([k |-> "hsl", c |-> <<1000 * h, 0, 1000 * li, 1000>>]) IN x[1] = x[2] /\ x[2] = x[3] /\ x[1] = Levels(li, 100)
=============================================================================
