------------------------------- MODULE Quoting -------------------------------
(* Quoted forms of strings.  A string is a sequence of characters [c, print, space,
   xdigit]; texts are sequences of character codes.                             *)
EXTENDS Integers, Sequences
Backslash == 92
Dots == <<46, 46, 46>>
HexDigit(d) == IF d < 10 THEN 48 + d ELSE 55 + d
RECURSIVE Digits(_, _)
Digits(n, b) == (IF n < b THEN <<>> ELSE Digits(n \div b, b)) \o <<HexDigit(n % b)>>
ZeroPad(t, n) == [i \in 1..(IF n > Len(t) THEN n - Len(t) ELSE 0) |-> 48] \o t
IsOctal(c) == c \in 48..55
Letter(c) == CASE c = 7 -> 97 [] c = 8 -> 98 [] c = 9 -> 116 [] c = 10 -> 110 [] c = 11 -> 118 [] c = 12 -> 102 [] c = 13 -> 114 [] OTHER -> 0
Special(x, quote) == x.c \in {quote, Backslash} \/ ~x.print
\* Form of the i'th character, and whether it ends in a hexadecimal escape sequence
Form(s, i, quote, afterHex) ==
    LET x == s[i] IN
    IF x.print /\ ~(afterHex /\ x.xdigit)
        THEN [t |-> IF Special(x, quote) THEN <<Backslash, x.c>> ELSE <<x.c>>, hex |-> FALSE]
    ELSE IF Letter(x.c) # 0 THEN [t |-> <<Backslash, Letter(x.c)>>, hex |-> FALSE]
    ELSE IF x.c < 512
        THEN [t |-> <<Backslash>> \o ZeroPad(Digits(x.c, 8), IF i < Len(s) /\ IsOctal(s[i + 1].c) THEN 3 ELSE 1), hex |-> FALSE]
    ELSE [t |-> <<Backslash, 120>> \o Digits(x.c, 16), hex |-> TRUE]
RECURSIVE Forms(_, _, _, _)
Forms(s, i, quote, afterHex) ==
    IF i > Len(s) THEN <<>> ELSE LET f == Form(s, i, quote, afterHex) IN <<f.t>> \o Forms(s, i + 1, quote, f.hex)
RECURSIVE Concat(_, _)
Concat(fs, n) == IF n = 0 THEN <<>> ELSE Concat(fs, n - 1) \o fs[n]
Max2(a, b) == IF a > b THEN a ELSE b
\* max = -1: unlimited.  n: how many characters of the string are in it
QuotedForm(s, quote, max) ==
    LET fs   == Forms(s, 1, quote, FALSE)
        all  == Concat(fs, Len(s))
        room == Max2(max, 5)
    IN IF max = -1 \/ Len(all) + 2 <= room THEN [t |-> <<quote>> \o all \o <<quote>>, n |-> Len(s)]
       ELSE LET ns == {n \in 0..Len(s) : Len(Concat(fs, n)) + 5 <= room}
                n  == CHOOSE x \in ns : \A y \in ns : y <= x
            IN [t |-> <<quote>> \o Concat(fs, n) \o Dots \o <<quote>>, n |-> n]
Simple(s, n, quote) == \A i \in 1..n : ~s[i].space /\ ~Special(s[i], quote)
Plain(s, n) == [i \in 1..n |-> s[i].c]
UnquotedForm(s, quote, max) ==
    LET room == Max2(max, 3) IN
    IF (max = -1 \/ Len(s) <= room) /\ Simple(s, Len(s), quote) THEN [t |-> Plain(s, Len(s)), n |-> Len(s)]
    ELSE LET ns == {n \in 0..Len(s) : (max = -1 \/ n + 3 <= room) /\ Simple(s, n, quote)}
             n  == CHOOSE x \in ns : \A y \in ns : y <= x
         IN [t |-> Plain(s, n) \o Dots, n |-> n]
\* The form that is chosen when quotation marks are used only where they are needed
UseUnquoted(s, quote, max) ==
    LET q == QuotedForm(s, quote, max)
        u == UnquotedForm(s, quote, max)
    IN /\ s # <<>>
       /\ IF max = -1 THEN Simple(s, Len(s), quote)
          ELSE IF Len(q.t) <= max /\ Len(u.t) <= max THEN u.n >= q.n
          ELSE Len(u.t) < Len(q.t) \/ (Len(u.t) = Len(q.t) /\ u.n >= q.n)
Shown(s, quote, max, smart) ==
    IF smart /\ UseUnquoted(s, quote, max) THEN UnquotedForm(s, quote, max).t ELSE QuotedForm(s, quote, max).t

\* ---- Reading a quoted form as a string literal
UnLetter(c) == CASE c = 97 -> 7 [] c = 98 -> 8 [] c = 116 -> 9 [] c = 110 -> 10 [] c = 118 -> 11 [] c = 102 -> 12 [] c = 114 -> 13 [] OTHER -> c
IsHexDigit(c) == c \in 48..57 \/ c \in 65..70 \/ c \in 97..102
HexVal(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
RECURSIVE OctRun(_, _, _, _)
OctRun(t, i, n, v) == IF i <= Len(t) /\ n < 3 /\ IsOctal(t[i]) THEN OctRun(t, i + 1, n + 1, 8 * v + t[i] - 48) ELSE <<v, i>>
RECURSIVE HexRun(_, _, _)
HexRun(t, i, v) == IF i <= Len(t) /\ IsHexDigit(t[i]) /\ v < 134217728 THEN HexRun(t, i + 1, 16 * v + HexVal(t[i])) ELSE <<v, i>>
RECURSIVE ReadFrom(_, _)
ReadFrom(t, i) ==
    IF i > Len(t) THEN <<>>
    ELSE IF t[i] # Backslash THEN <<t[i]>> \o ReadFrom(t, i + 1)
    ELSE IF i = Len(t) THEN <<-1>>
    ELSE IF IsOctal(t[i + 1]) THEN LET r == OctRun(t, i + 1, 0, 0) IN <<r[1]>> \o ReadFrom(t, r[2])
    ELSE IF t[i + 1] = 120 THEN LET r == HexRun(t, i + 2, 0) IN <<r[1]>> \o ReadFrom(t, r[2])
    ELSE <<UnLetter(t[i + 1])>> \o ReadFrom(t, i + 2)
\* Of a text with its quotation marks
Reading(t) == ReadFrom(SubSeq(t, 2, Len(t) - 1), 1)
=============================================================================
