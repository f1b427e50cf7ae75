------------------------------ MODULE ValueText ------------------------------
(* Values as text: integers in any base, values read by way of streams, and lists.
   Texts are sequences of character codes; integers are those of BigInt.  What a
   text denotes is defined first; a formatted text has to denote its value, in the
   one way that the given options leave.                                        *)
EXTENDS BigInt, FiniteSets

\* ---- Integers
Bad == [k |-> "bad"]
Val(v) == [k |-> "val", v |-> v]
IsUpper(c) == c \in 65..90
IsLower(c) == c \in 97..122
IsDec(c) == c \in 48..57
\* 99 for what is no digit in any base
DigitOf(c) == IF IsDec(c) THEN c - 48 ELSE IF IsUpper(c) THEN c - 55 ELSE IF IsLower(c) THEN c - 87 ELSE 99
IsDigits(t, radix) == t # <<>> /\ \A i \in 1..Len(t) : DigitOf(t[i]) < radix
Rest(t) == SubSeq(t, 2, Len(t))
RECURSIVE Horner(_, _, _, _)
Horner(t, i, radix, acc) == IF i > Len(t) THEN acc ELSE Horner(t, i + 1, radix, Add(Mul(acc, Big(radix)), Big(DigitOf(t[i]))))
Number(t, radix) == Horner(t, 1, radix, Zero)
\* Signs: the set of characters that may come first as a sign
Minus == 45
Plus == 43
Signs(mode, signed) ==
    IF mode = "accept" THEN {Minus, Plus}
    ELSE IF mode = "accept_minus" THEN {Minus}
    ELSE IF mode = "reject" THEN {}
    ELSE IF signed THEN {Minus} ELSE {}
\* The integer that a text denotes, within the bounds of a type
Denoted(t, radix, signs, lo, hi) ==
    LET sign == t # <<>> /\ t[1] \in signs
        ds   == IF sign THEN Rest(t) ELSE t
    IN IF ~IsDigits(ds, radix) THEN Bad
       ELSE LET n == Number(ds, radix)
                v == IF sign /\ t[1] = Minus THEN Neg(n) ELSE n
            IN IF In(v, lo, hi) THEN Val(v) ELSE Bad
\* The text of an integer with at least min digits
IsTextOf(t, v, radix, min, lower) ==
    LET ds == IF v.s < 0 THEN Rest(t) ELSE t IN
    /\ (v.s < 0 => (t # <<>> /\ t[1] = Minus))
    /\ \A i \in 1..Len(ds) : DigitOf(ds[i]) < radix /\ ~(IF lower THEN IsUpper(ds[i]) ELSE IsLower(ds[i]))
    /\ Number(ds, radix) = Abs(v)
    /\ Len(ds) >= min
    /\ (Len(ds) > min => DigitOf(ds[1]) # 0)
\* Number of digits that the type can need
MaxDigits(lo, hi, radix) == LET a == NumDigits(lo, radix) b == NumDigits(hi, radix) IN IF a > b THEN a ELSE b
MinDigits(min, lo, hi, radix) == IF min < 0 THEN MaxDigits(lo, hi, radix) ELSE min

\* Unsigned integers in the base that their prefix tells
Flexible(t, lo, hi) ==
    IF t = <<>> \/ t[1] # 48 THEN Denoted(t, 10, {}, lo, hi)
    ELSE IF Len(t) >= 2 /\ t[2] \in {88, 120} THEN Denoted(SubSeq(t, 3, Len(t)), 16, {}, lo, hi)
    ELSE Denoted(t, 8, {}, lo, hi)

\* What is taken from a stream as the text of an integer: a dash, letters, digits and underscores
IsWord(c) == IsDec(c) \/ IsUpper(c) \/ IsLower(c) \/ c = 95
IsSpace(c) == c = 32 \/ c \in 9..13
RECURSIVE SkipWhile(_, _, _)
SkipWhile(t, i, S) == IF i > Len(t) \/ t[i] \notin S THEN i ELSE SkipWhile(t, i + 1, S)
SpaceChars == {32} \cup (9..13)
WordChars == (48..57) \cup (65..90) \cup (97..122) \cup {95}
\* First and last position of it
Taken(t) ==
    LET b == SkipWhile(t, 1, SpaceChars)
        d == IF b <= Len(t) /\ t[b] = Minus THEN b + 1 ELSE b
    IN <<b, SkipWhile(t, d, WordChars) - 1>>

\* ---- Values by way of streams
\* No space before, no sign on negative unsigned numbers
ByStream(t, signed, lo, hi) == Denoted(t, 10, IF signed THEN {Minus, Plus} ELSE {Plus}, lo, hi)

\* ---- Lists
\* c: [sep, bracketed, open, close, space]; texts of the elements are given
Allows(c) == c.space # "none"
SpaceAfter(c) == c.space \in {"tight", "loose"} \/ (c.space = "auto" /\ c.sep # 32)
RECURSIVE Join(_, _)
Join(es, sep) == IF es = <<>> THEN <<>> ELSE IF Len(es) = 1 THEN es[1] ELSE es[1] \o sep \o Join(Tail(es), sep)
ListText(es, c) ==
    LET inner == Join(es, IF SpaceAfter(c) THEN <<c.sep, 32>> ELSE <<c.sep>>)
        pad   == IF c.space = "loose" /\ es # <<>> THEN <<32>> ELSE <<>>
    IN IF c.bracketed THEN <<c.open>> \o pad \o inner \o pad \o <<c.close>> ELSE inner

RECURSIVE SplitAt(_, _, _)
\* Pieces from position i
SplitAt(t, i, c) ==
    LET js == {j \in i..Len(t) : t[j] = c.sep} IN
    IF js = {} THEN <<SubSeq(t, i, Len(t))>>
    ELSE LET j == CHOOSE x \in js : \A y \in js : x <= y IN
         <<SubSeq(t, i, j - 1)>> \o SplitAt(t, IF Allows(c) THEN SkipWhile(t, j + 1, {32}) ELSE j + 1, c)
RECURSIVE StripEnd(_)
StripEnd(t) == IF t # <<>> /\ t[Len(t)] = 32 THEN StripEnd(SubSeq(t, 1, Len(t) - 1)) ELSE t
Strip(t) == StripEnd(SubSeq(t, SkipWhile(t, 1, {32}), Len(t)))
\* The text within the brackets
Inside(t, c) ==
    IF ~c.bracketed THEN [ok |-> TRUE, t |-> t]
    ELSE IF Len(t) < 2 \/ t[1] # c.open \/ t[Len(t)] # c.close THEN [ok |-> FALSE, t |-> <<>>]
    ELSE LET u == SubSeq(t, 2, Len(t) - 1) IN [ok |-> TRUE, t |-> IF Allows(c) THEN Strip(u) ELSE u]
\* Texts of the elements of a list of at least one
Pieces(t, c) == LET u == Inside(t, c) IN IF u.ok THEN SplitAt(u.t, 1, c) ELSE <<>>
IsEmptyList(t, c) == LET u == Inside(t, c) IN u.ok /\ u.t = <<>>

\* Number of elements of the shortest form of a sequence that may be cut at its end
RECURSIVE CutTo(_, _, _, _, _)
CutTo(vs, n, min, copy, default) ==
    IF n > min /\ n > 1 /\ vs[n] = (IF copy THEN vs[n - 1] ELSE default) THEN CutTo(vs, n - 1, min, copy, default) ELSE n
AtLeastOne(n) == IF n < 1 THEN 1 ELSE n
Shortest(vs, min, copy, default) == CutTo(vs, Len(vs), AtLeastOne(min), copy, default)
\* The whole from its first elements
FillUp(vs, n, copy, default) == [i \in 1..n |-> IF i <= Len(vs) THEN vs[i] ELSE IF copy THEN vs[Len(vs)] ELSE default]

\* ---- Field width
Pad(t, width, left, fill) ==
    LET p == [i \in 1..(IF width > Len(t) THEN width - Len(t) ELSE 0) |-> fill] IN IF left THEN t \o p ELSE p \o t
=============================================================================
