----------------------------- MODULE TextCodec -----------------------------
(* Character codecs, newline codec and text codecs, as streams of calls.

   form   the encoding:  "char" (identity), "ascii", "utf8", and "shift", which
          has a state: ESC 0 and ESC 1 change the page that other bytes refer to
   mode   "strict", or "lenient": one replacement for each place that is invalid

   A call is given what has not been consumed of the input so far (s, of which
   it may be told that nothing follows: eod) and room for so many units. What
   it may do is a set of stops [at, out, st, why]; at is the position (from 1)
   of the next unit, why is "done", "full" or "error".                        *)
EXTENDS Integers, Sequences, FiniteSets

MaxSkip == 6                     \* at most that many bytes are replaced together
Lenient(mode) == mode # "strict"
\* The replacement is a question mark when there is nothing better, or when asked for
Replacement(form, mode) == IF form = "utf8" /\ mode = "lenient" THEN 65533 ELSE 63

\* ---- Decoding, one item at a time
Cont(b) == b >= 128 /\ b < 192
Need(b) == IF b < 128 THEN 1 ELSE IF b < 194 THEN 0 ELSE IF b < 224 THEN 2 ELSE IF b < 240 THEN 3 ELSE IF b < 248 THEN 4 ELSE 0
Guess(s, i, n) ==
    CASE n = 1 -> s[i]
      [] n = 2 -> ((s[i] - 192) * 64) + (s[i + 1] - 128)
      [] n = 3 -> ((s[i] - 224) * 4096) + ((s[i + 1] - 128) * 64) + (s[i + 2] - 128)
      [] OTHER -> ((s[i] - 240) * 262144) + ((s[i + 1] - 128) * 4096) + ((s[i + 2] - 128) * 64) + (s[i + 3] - 128)
Good(c, n) == CASE n = 1 -> TRUE [] n = 2 -> c >= 128 [] n = 3 -> c >= 2048 /\ ~(c >= 55296 /\ c < 57344) [] OTHER -> c >= 65536 /\ c < 1114112
Hi(s, i, n) == Guess([k \in 1..n |-> IF i + k - 1 <= Len(s) THEN s[i + k - 1] ELSE 191], 1, n)
Lo(s, i, n) == Guess([k \in 1..n |-> IF i + k - 1 <= Len(s) THEN s[i + k - 1] ELSE 128], 1, n)
\* Some way to go on leads to something valid
Hope(s, i, n) == Good(Hi(s, i, n), n) \/ Good(Lo(s, i, n), n)

\* [k: "end" | "part" | "short" | "bad" | "char" | "shift", c, n, st]
It(k, c, n, st) == [k |-> k, c |-> c, n |-> n, st |-> st]
Utf8Item(s, i) ==
    LET n == Need(s[i]) m == IF Len(s) - i + 1 < n THEN Len(s) - i + 1 ELSE n IN
    IF n = 0 \/ ~(\A k \in (i + 1)..(i + m - 1) : Cont(s[k])) THEN It("bad", 0, 0, 0)
    ELSE IF m < n THEN It(IF Hope(s, i, n) THEN "part" ELSE "short", 0, 0, 0)
    ELSE IF Good(Guess(s, i, n), n) THEN It("char", Guess(s, i, n), n, 0) ELSE It("bad", 0, 0, 0)
Plain(b) == b \in {9, 10, 13} \/ (b >= 32 /\ b < 127)
Page(st, b) == IF st = 1 /\ b >= 32 THEN 1024 + b ELSE b
ShiftItem(s, i, st) ==
    IF s[i] = 27 THEN IF i = Len(s) THEN It("part", 0, 0, 0)
                      ELSE IF s[i + 1] \in {48, 49} THEN It("shift", 0, 2, s[i + 1] - 48) ELSE It("bad", 0, 0, 0)
    ELSE IF Plain(s[i]) THEN It("char", Page(st, s[i]), 1, st) ELSE It("bad", 0, 0, 0)
Item(form, s, i, st) ==
    IF i > Len(s) THEN It("end", 0, 0, 0)
    ELSE CASE form = "char" -> It("char", s[i], 1, 0)
           [] form = "ascii" -> IF s[i] < 128 THEN It("char", s[i], 1, 0) ELSE It("bad", 0, 0, 0)
           [] form = "utf8" -> Utf8Item(s, i)
           [] OTHER -> ShiftItem(s, i, st)
\* Something valid may begin with that byte
Starts(form, b) == CASE form = "ascii" -> b < 128 [] form = "utf8" -> b < 128 \/ (b >= 194 /\ b < 248)
                     [] form = "shift" -> b = 27 \/ Plain(b) [] OTHER -> TRUE
\* How much is replaced; 0 when that cannot be told yet
RECURSIVE Extent(_, _, _, _, _)
Extent(form, s, i, m, eod) ==
    IF m = MaxSkip THEN m
    ELSE IF i + m > Len(s) THEN (IF eod THEN m ELSE 0)
    ELSE IF Starts(form, s[i + m]) THEN m ELSE Extent(form, s, i, m + 1, eod)

Stop(at, out, st, why) == [at |-> at, out |-> out, st |-> st, why |-> why]
RECURSIVE Decode(_, _, _, _, _, _, _, _)
Decode(form, mode, s, i, st, room, eod, out) ==
    LET it == Item(form, s, i, st)
        here(whys) == {Stop(i, out, st, w) : w \in whys}
        none == room = 0
        part == here(IF none THEN {"done", "full"} ELSE {"done"})
        m == Extent(form, s, i, 1, eod)
        bad == IF ~Lenient(mode) THEN here(IF none THEN {"error", "full"} ELSE {"error"})
               ELSE IF m = 0 THEN part
               ELSE IF none THEN here({"full"})
               ELSE Decode(form, mode, s, i + m, 0, room - 1, eod, Append(out, Replacement(form, mode)))
    IN CASE it.k = "end" -> here({"done"})
         [] it.k = "bad" -> bad
         [] it.k = "part" -> IF eod THEN bad ELSE part
         \* What has begun cannot become valid; that may be noticed now, or later
         [] it.k = "short" -> IF eod THEN bad ELSE part \cup bad
         [] it.k = "shift" -> (IF none THEN here({"full"}) ELSE {}) \cup Decode(form, mode, s, i + it.n, it.st, room, eod, out)
         [] OTHER -> IF none THEN here({"full"}) ELSE Decode(form, mode, s, i + it.n, it.st, room - 1, eod, Append(out, it.c))

\* ---- Encoding: one character is a sequence of byte sequences, each of which is written whole or not at all
Utf8(c) == IF c < 128 THEN <<c>>
           ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
           ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
\* [ok, pre, seq, st]: change of state, then the character
Enc(form, c, st) ==
    LET no == [ok |-> FALSE, pre |-> <<>>, seq |-> <<>>, st |-> st]
        yes(pre, seq, st2) == [ok |-> TRUE, pre |-> pre, seq |-> seq, st |-> st2]
    IN CASE form = "char" -> yes(<<>>, <<c>>, 0)
         [] form = "ascii" -> IF c < 128 THEN yes(<<>>, <<c>>, 0) ELSE no
         [] form = "utf8" -> IF c >= 1114112 \/ (c >= 55296 /\ c < 57344) THEN no ELSE yes(<<>>, Utf8(c), 0)
         [] OTHER -> LET page == IF c >= 1024 THEN 1 ELSE 0 b == IF page = 1 THEN c - 1024 ELSE c IN
                     IF ~Plain(b) \/ (page = 1 /\ b < 32) THEN no
                     ELSE IF b < 32 \/ page = st THEN yes(<<>>, <<b>>, st)
                     ELSE yes(<<27, 48 + page>>, <<b>>, page)
RECURSIVE Encode(_, _, _, _, _, _, _)
Encode(form, mode, s, i, st, room, out) ==
    IF i > Len(s) THEN {Stop(i, out, st, "done")}
    ELSE LET x == Enc(form, s[i], st)
             e == IF x.ok \/ ~Lenient(mode) THEN x ELSE Enc(form, Replacement(form, mode), st)
             all == e.pre \o e.seq
         IN IF ~e.ok THEN {Stop(i, out, st, w) : w \in (IF room = 0 THEN {"error", "full"} ELSE {"error"})}
            ELSE IF Len(all) > room THEN
                 {Stop(i, out, st, "full")} \cup (IF e.pre # <<>> /\ Len(e.pre) <= room THEN {Stop(i, out \o e.pre, e.st, "full")} ELSE {})
            ELSE Encode(form, mode, s, i + 1, e.st, room - Len(all), out \o all)
\* Back to the initial state
Unshift(st, room) == IF st = 0 THEN Stop(1, <<>>, 0, "done")
                     ELSE IF room >= 2 THEN Stop(1, <<27, 48>>, 0, "done") ELSE Stop(1, <<>>, st, "full")

\* ---- All at once
Plenty == 1000000
TheOne(x) == CHOOSE r \in x : TRUE
DecodeAll(form, mode, s) == TheOne(Decode(form, mode, s, 1, 0, Plenty, TRUE, <<>>))
EncodeAll(form, mode, s) ==
    LET r == TheOne(Encode(form, mode, s, 1, 0, Plenty, <<>>))
    IN IF r.why = "done" THEN [r EXCEPT !.out = @ \o Unshift(r.st, 2).out, !.st = 0] ELSE r

\* ---- Newlines: CR LF on the outside, LF on the inside.  k is the number of units produced up to and
\* including the last newline that was decoded, 0 when there is none
RECURSIVE NlDecode(_, _, _, _, _, _)
NlDecode(s, i, room, eod, out, k) ==
    IF i > Len(s) \/ room = 0 THEN [at |-> i, out |-> out, k |-> k]
    ELSE IF s[i] # 13 \/ (i = Len(s) /\ eod) \/ (i < Len(s) /\ s[i + 1] # 10) THEN NlDecode(s, i + 1, room - 1, eod, Append(out, s[i]), k)
    ELSE IF i = Len(s) THEN [at |-> i, out |-> out, k |-> k]
    ELSE NlDecode(s, i + 2, room - 1, eod, Append(out, 10), Len(out) + 1)
RECURSIVE NlEncode(_, _, _, _)
NlEncode(s, i, room, out) ==
    IF i > Len(s) THEN [at |-> i, out |-> out]
    ELSE LET e == IF s[i] = 10 THEN <<13, 10>> ELSE <<s[i]>>
         IN IF Len(e) > room THEN [at |-> i, out |-> out] ELSE NlEncode(s, i + 1, room - Len(e), out \o e)
\* Position after so many decoded characters, -1 when there are not so many
NlMeasure(s, i, size) == LET r == NlDecode(s, i, size, TRUE, <<>>, 0) IN IF Len(r.out) = size THEN r.at ELSE -1

\* ---- Texts
TextDecode(os, form, mode, s) == DecodeAll(form, mode, IF os = "windows" THEN NlDecode(s, 1, Plenty, TRUE, <<>>, 0).out ELSE s)
TextEncode(os, form, mode, s) ==
    LET r == EncodeAll(form, mode, s) IN IF os = "windows" THEN [r EXCEPT !.out = NlEncode(@, 1, Plenty, <<>>).out] ELSE r
=============================================================================
