------------------------------- MODULE Base64 -------------------------------
(* Base64 (RFC 4648, sections 4 and 5). Text is a sequence of character codes.

   Encoding is defined directly; a text is valid when it is the encoding of
   something, padded or not as demanded, with white space anywhere when that is
   allowed.                                                                   *)
EXTENDS Integers, Sequences, FiniteSets

Char(url, d) == IF d < 26 THEN 65 + d ELSE IF d < 52 THEN 97 + (d - 26) ELSE IF d < 62 THEN 48 + (d - 52)
                ELSE IF d = 62 THEN (IF url THEN 45 ELSE 43) ELSE (IF url THEN 95 ELSE 47)
Digit(url, c) == IF c >= 65 /\ c <= 90 THEN c - 65 ELSE IF c >= 97 /\ c <= 122 THEN c - 71 ELSE IF c >= 48 /\ c <= 57 THEN c + 4
                 ELSE IF c = (IF url THEN 45 ELSE 43) THEN 62 ELSE IF c = (IF url THEN 95 ELSE 47) THEN 63 ELSE -1
White == {32, 9, 10}
Equal == 61

At(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
\* Six bits number k (from 0) of bytes s, taken to be followed by zeros
Six(s, k) == LET b == (6 * k) \div 8 r == (6 * k) % 8          \* r is 0, 6, 4 or 2
                 w == (At(s, b + 1) * 256) + At(s, b + 2)
             IN (w \div (CASE r = 0 -> 1024 [] r = 6 -> 16 [] r = 4 -> 64 [] OTHER -> 256)) % 64
Plain(s, url) == [k \in 1..(((8 * Len(s)) + 5) \div 6) |-> Char(url, Six(s, k - 1))]
Pads(s) == CASE Len(s) % 3 = 0 -> 0 [] Len(s) % 3 = 1 -> 2 [] OTHER -> 1
Text(s, url, pad) == Plain(s, url) \o (IF pad THEN [k \in 1..Pads(s) |-> Equal] ELSE <<>>)
\* Every line of n characters, and the last one if shorter, is followed by a newline
RECURSIVE Lines(_, _)
Lines(t, n) == IF n = 0 \/ Len(t) = 0 THEN t
               ELSE IF Len(t) <= n THEN t \o <<10>>
               ELSE SubSeq(t, 1, n) \o <<10>> \o Lines(SubSeq(t, n + 1, Len(t)), n)
Encode(s, c) == Lines(Text(s, c.url, c.pad), c.line)

\* The bytes of which digits d are the encoding, provided there are such
Bytes(d) == LET w(i) == IF i <= Len(d) THEN d[i] ELSE 0
                byte(b) == LET k == (8 * b) \div 6 r == (8 * b) % 6          \* r is 0, 2 or 4
                               v == (w(k + 1) * 4096) + (w(k + 2) * 64) + w(k + 3)
                           IN (v \div (CASE r = 0 -> 1024 [] r = 2 -> 256 [] OTHER -> 64)) % 256
            IN [b \in 1..((6 * Len(d)) \div 8) |-> byte(b - 1)]
\* c = [url, pad in {"allow", "reject", "require"}, ws]
Strip(t, c) == IF c.ws THEN SelectSeq(t, LAMBDA x : x \notin White) ELSE t
\* How many leading characters are digits
RECURSIVE Lead(_, _, _)
Lead(t, url, i) == IF i > Len(t) \/ Digit(url, t[i]) < 0 THEN i - 1 ELSE Lead(t, url, i + 1)
Digits(t, url, n) == [i \in 1..n |-> Digit(url, t[i])]
Decode(t0, c) ==
    LET t == Strip(t0, c)
        n == Lead(t, c.url, 1)
        s == Bytes(Digits(t, c.url, n))
    IN [ok |-> \/ (c.pad # "require" \/ Pads(s) = 0) /\ t = Text(s, c.url, FALSE)
               \/ c.pad # "reject" /\ t = Text(s, c.url, TRUE),
        out |-> s,
        \* bytes of the complete groups of four digits
        sure |-> 3 * (n \div 4)]

EncodeSize(n, c) == LET p == IF c.pad THEN 4 * ((n + 2) \div 3) ELSE ((8 * n) + 5) \div 6
                    IN IF c.line = 0 THEN p ELSE p + ((p + c.line - 1) \div c.line)
=============================================================================
