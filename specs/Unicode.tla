------------------------------ MODULE Unicode ------------------------------
(* The Unicode encoding forms, and what a conversion between them has to do.

   op is one of
     "e8", "d8"    encode and decode UTF-8   (code points <-> bytes)
     "e16", "d16"  encode and decode UTF-16  (code points <-> 16-bit units)
     "8to16", "16to8"

   Decoding is defined by way of encoding: a sequence of units stands for a
   code point exactly when it is the encoding of that code point.             *)
EXTENDS Integers, Sequences, FiniteSets

\* U+FFFE and U+FFFF are not accepted as characters
Valid(c) == (c >= 0 /\ c < 55296) \/ (c >= 57344 /\ c < 65534) \/ (c >= 65536 /\ c < 1114112)
Replacement == 65533

Utf8(c) == IF c < 128 THEN <<c>>
           ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
           ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Utf16(c) == IF c < 65536 THEN <<c>> ELSE <<55296 + ((c - 65536) \div 1024), 56320 + ((c - 65536) % 1024)>>

Source(op) == IF op \in {"d8", "8to16"} THEN "8" ELSE IF op \in {"d16", "16to8"} THEN "16" ELSE "ucs"
Target(op) == IF op \in {"e8", "16to8"} THEN "8" ELSE IF op \in {"e16", "8to16"} THEN "16" ELSE "ucs"
Encode(form, c) == CASE form = "8" -> Utf8(c) [] form = "16" -> Utf16(c) [] OTHER -> <<c>>

\* ---- What there is at position i (from 1) of a sequence of units

\* Number of units that the first one calls for; 0 when nothing begins with it
Need(form, u) ==
    CASE form = "8" -> (IF u < 128 THEN 1 ELSE IF u < 192 THEN 0 ELSE IF u < 224 THEN 2 ELSE IF u < 240 THEN 3 ELSE IF u < 248 THEN 4 ELSE 0)
      [] form = "16" -> (IF u >= 55296 /\ u < 56320 THEN 2 ELSE IF u >= 65536 THEN 0 ELSE 1)
      [] OTHER -> 1
\* The code point that n units from i would have to stand for
Guess(form, s, i, n) ==
    CASE form = "8" -> (CASE n = 1 -> s[i]
                          [] n = 2 -> ((s[i] - 192) * 64) + (s[i + 1] - 128)
                          [] n = 3 -> ((s[i] - 224) * 4096) + ((s[i + 1] - 128) * 64) + (s[i + 2] - 128)
                          [] OTHER -> ((s[i] - 240) * 262144) + ((s[i + 1] - 128) * 4096) + ((s[i + 2] - 128) * 64) + (s[i + 3] - 128))
      [] form = "16" -> (IF n = 1 THEN s[i] ELSE 65536 + ((s[i] - 55296) * 1024) + (s[i + 1] - 56320))
      [] OTHER -> s[i]
Sane(s, i, n) == \A k \in i..(i + n - 1) : s[k] < 65536      \* no overflow in guesses
\* A proper prefix of the encoding of some code point
Begins(form, s, i) ==
    LET n == Need(form, s[i]) m == Len(s) - i + 1 IN
    /\ m < n
    /\ CASE form = "8" ->
              /\ \A k \in (i + 1)..Len(s) : s[k] >= 128 /\ s[k] < 192
              /\ LET lo == Guess(form, [k \in 1..n |-> IF k <= m THEN s[i + k - 1] ELSE 128], 1, n)
                     hi == Guess(form, [k \in 1..n |-> IF k <= m THEN s[i + k - 1] ELSE 191], 1, n)
                     low == IF n = 2 THEN 128 ELSE IF n = 3 THEN 2048 ELSE 65536
                 IN /\ hi >= low /\ lo < 1114112
                    /\ ~(lo >= 55296 /\ hi < 57344)
         [] OTHER -> TRUE

\* <<"char", c, n>>: n units standing for c; <<"end">>; <<"part">>: beginning of something valid;
\* <<"short">>: fewer units than the first one calls for, but nothing valid begins like that; <<"bad">>
At(form, s, i) ==
    IF i > Len(s) THEN <<"end">>
    ELSE LET n == Need(form, s[i]) IN
         IF n = 0 THEN <<"bad">>
         ELSE IF Len(s) - i + 1 < n THEN (IF Begins(form, s, i) THEN <<"part">> ELSE <<"short">>)
         ELSE IF ~Sane(s, i, n) /\ form # "ucs" THEN <<"bad">>
         ELSE LET c == Guess(form, s, i, n) IN
              IF Valid(c) /\ Encode(form, c) = SubSeq(s, i, i + n - 1) THEN <<"char", c, n>> ELSE <<"bad">>

\* ---- Conversion from position i into room for so many units: [at, out, why]
RECURSIVE Run(_, _, _, _, _)
Run(op, s, i, room, out) ==
    LET a == At(Source(op), s, i) IN
    IF a[1] # "char" THEN [at |-> i, out |-> out, why |-> a[1]]
    ELSE LET e == Encode(Target(op), a[2]) IN
         IF Len(e) > room THEN [at |-> i, out |-> out, why |-> "full"]
         ELSE Run(op, s, i + a[3], room - Len(e), out \o e)
Convert(op, s, i, room) == Run(op, s, i, room, <<>>)

\* Flags <<input exhausted, error>> that may be reported; error has no meaning when input is exhausted.
\* An incomplete sequence that cannot become valid may be taken as either.
Flags(why) == CASE why \in {"end", "part"} -> {<<TRUE, FALSE>>}
                [] why = "short" -> {<<TRUE, FALSE>>, <<FALSE, TRUE>>}
                [] why = "bad" -> {<<FALSE, TRUE>>}
                [] OTHER -> {<<FALSE, FALSE>>}

\* ---- Skipping the rest of something invalid
Starts(form, u) == IF form = "8" THEN u < 128 \/ (u >= 192 /\ u < 248) ELSE u < 56320 \/ u >= 57344
RECURSIVE Resync(_, _, _)
Resync(form, s, i) == IF i > Len(s) \/ Starts(form, s[i]) THEN i ELSE Resync(form, s, i + 1)

\* One replacement for each invalid sequence
RECURSIVE Lenient(_, _, _)
Lenient(op, s, i) ==
    LET r == Convert(op, s, i, 1000000) IN
    IF r.why = "end" THEN r.out
    ELSE r.out \o Encode(Target(op), Replacement)
           \o Lenient(op, s, IF Source(op) = "ucs" THEN r.at + 1 ELSE Resync(Source(op), s, r.at + 1))
=============================================================================
