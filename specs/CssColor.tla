----------------------------- MODULE CssColor -----------------------------
(* CSS colors: what a text denotes.

   Texts are sequences of character codes.  Components of functional forms are
   in thousandths.  What a text denotes is [k |-> "bad"] if it is no color, and
   [k |-> "odd"] where nothing is claimed (notations of numbers that CSS does not have, or
   spaces in unusual places).                                                   *)
EXTENDS Integers, Sequences, FiniteSets

Names == [
  aliceblue |-> <<240, 248, 255, 255>>,
  antiquewhite |-> <<250, 235, 215, 255>>,
  aqua |-> <<0, 255, 255, 255>>,
  aquamarine |-> <<127, 255, 212, 255>>,
  azure |-> <<240, 255, 255, 255>>,
  beige |-> <<245, 245, 220, 255>>,
  bisque |-> <<255, 228, 196, 255>>,
  black |-> <<0, 0, 0, 255>>,
  blanchedalmond |-> <<255, 235, 205, 255>>,
  blue |-> <<0, 0, 255, 255>>,
  blueviolet |-> <<138, 43, 226, 255>>,
  brown |-> <<165, 42, 42, 255>>,
  burlywood |-> <<222, 184, 135, 255>>,
  cadetblue |-> <<95, 158, 160, 255>>,
  chartreuse |-> <<127, 255, 0, 255>>,
  chocolate |-> <<210, 105, 30, 255>>,
  coral |-> <<255, 127, 80, 255>>,
  cornflowerblue |-> <<100, 149, 237, 255>>,
  cornsilk |-> <<255, 248, 220, 255>>,
  crimson |-> <<220, 20, 60, 255>>,
  cyan |-> <<0, 255, 255, 255>>,
  darkblue |-> <<0, 0, 139, 255>>,
  darkcyan |-> <<0, 139, 139, 255>>,
  darkgoldenrod |-> <<184, 134, 11, 255>>,
  darkgray |-> <<169, 169, 169, 255>>,
  darkgreen |-> <<0, 100, 0, 255>>,
  darkgrey |-> <<169, 169, 169, 255>>,
  darkkhaki |-> <<189, 183, 107, 255>>,
  darkmagenta |-> <<139, 0, 139, 255>>,
  darkolivegreen |-> <<85, 107, 47, 255>>,
  darkorange |-> <<255, 140, 0, 255>>,
  darkorchid |-> <<153, 50, 204, 255>>,
  darkred |-> <<139, 0, 0, 255>>,
  darksalmon |-> <<233, 150, 122, 255>>,
  darkseagreen |-> <<143, 188, 143, 255>>,
  darkslateblue |-> <<72, 61, 139, 255>>,
  darkslategray |-> <<47, 79, 79, 255>>,
  darkslategrey |-> <<47, 79, 79, 255>>,
  darkturquoise |-> <<0, 206, 209, 255>>,
  darkviolet |-> <<148, 0, 211, 255>>,
  deeppink |-> <<255, 20, 147, 255>>,
  deepskyblue |-> <<0, 191, 255, 255>>,
  dimgray |-> <<105, 105, 105, 255>>,
  dimgrey |-> <<105, 105, 105, 255>>,
  dodgerblue |-> <<30, 144, 255, 255>>,
  firebrick |-> <<178, 34, 34, 255>>,
  floralwhite |-> <<255, 250, 240, 255>>,
  forestgreen |-> <<34, 139, 34, 255>>,
  fuchsia |-> <<255, 0, 255, 255>>,
  gainsboro |-> <<220, 220, 220, 255>>,
  ghostwhite |-> <<248, 248, 255, 255>>,
  gold |-> <<255, 215, 0, 255>>,
  goldenrod |-> <<218, 165, 32, 255>>,
  gray |-> <<128, 128, 128, 255>>,
  green |-> <<0, 128, 0, 255>>,
  greenyellow |-> <<173, 255, 47, 255>>,
  grey |-> <<128, 128, 128, 255>>,
  honeydew |-> <<240, 255, 240, 255>>,
  hotpink |-> <<255, 105, 180, 255>>,
  indianred |-> <<205, 92, 92, 255>>,
  indigo |-> <<75, 0, 130, 255>>,
  ivory |-> <<255, 255, 240, 255>>,
  khaki |-> <<240, 230, 140, 255>>,
  lavender |-> <<230, 230, 250, 255>>,
  lavenderblush |-> <<255, 240, 245, 255>>,
  lawngreen |-> <<124, 252, 0, 255>>,
  lemonchiffon |-> <<255, 250, 205, 255>>,
  lightblue |-> <<173, 216, 230, 255>>,
  lightcoral |-> <<240, 128, 128, 255>>,
  lightcyan |-> <<224, 255, 255, 255>>,
  lightgoldenrodyellow |-> <<250, 250, 210, 255>>,
  lightgray |-> <<211, 211, 211, 255>>,
  lightgreen |-> <<144, 238, 144, 255>>,
  lightgrey |-> <<211, 211, 211, 255>>,
  lightpink |-> <<255, 182, 193, 255>>,
  lightsalmon |-> <<255, 160, 122, 255>>,
  lightseagreen |-> <<32, 178, 170, 255>>,
  lightskyblue |-> <<135, 206, 250, 255>>,
  lightslategray |-> <<119, 136, 153, 255>>,
  lightslategrey |-> <<119, 136, 153, 255>>,
  lightsteelblue |-> <<176, 196, 222, 255>>,
  lightyellow |-> <<255, 255, 224, 255>>,
  lime |-> <<0, 255, 0, 255>>,
  limegreen |-> <<50, 205, 50, 255>>,
  linen |-> <<250, 240, 230, 255>>,
  magenta |-> <<255, 0, 255, 255>>,
  maroon |-> <<128, 0, 0, 255>>,
  mediumaquamarine |-> <<102, 205, 170, 255>>,
  mediumblue |-> <<0, 0, 205, 255>>,
  mediumorchid |-> <<186, 85, 211, 255>>,
  mediumpurple |-> <<147, 112, 219, 255>>,
  mediumseagreen |-> <<60, 179, 113, 255>>,
  mediumslateblue |-> <<123, 104, 238, 255>>,
  mediumspringgreen |-> <<0, 250, 154, 255>>,
  mediumturquoise |-> <<72, 209, 204, 255>>,
  mediumvioletred |-> <<199, 21, 133, 255>>,
  midnightblue |-> <<25, 25, 112, 255>>,
  mintcream |-> <<245, 255, 250, 255>>,
  mistyrose |-> <<255, 228, 225, 255>>,
  moccasin |-> <<255, 228, 181, 255>>,
  navajowhite |-> <<255, 222, 173, 255>>,
  navy |-> <<0, 0, 128, 255>>,
  oldlace |-> <<253, 245, 230, 255>>,
  olive |-> <<128, 128, 0, 255>>,
  olivedrab |-> <<107, 142, 35, 255>>,
  orange |-> <<255, 165, 0, 255>>,
  orangered |-> <<255, 69, 0, 255>>,
  orchid |-> <<218, 112, 214, 255>>,
  palegoldenrod |-> <<238, 232, 170, 255>>,
  palegreen |-> <<152, 251, 152, 255>>,
  paleturquoise |-> <<175, 238, 238, 255>>,
  palevioletred |-> <<219, 112, 147, 255>>,
  papayawhip |-> <<255, 239, 213, 255>>,
  peachpuff |-> <<255, 218, 185, 255>>,
  peru |-> <<205, 133, 63, 255>>,
  pink |-> <<255, 192, 203, 255>>,
  plum |-> <<221, 160, 221, 255>>,
  powderblue |-> <<176, 224, 230, 255>>,
  purple |-> <<128, 0, 128, 255>>,
  red |-> <<255, 0, 0, 255>>,
  rosybrown |-> <<188, 143, 143, 255>>,
  royalblue |-> <<65, 105, 225, 255>>,
  saddlebrown |-> <<139, 69, 19, 255>>,
  salmon |-> <<250, 128, 114, 255>>,
  sandybrown |-> <<244, 164, 96, 255>>,
  seagreen |-> <<46, 139, 87, 255>>,
  seashell |-> <<255, 245, 238, 255>>,
  sienna |-> <<160, 82, 45, 255>>,
  silver |-> <<192, 192, 192, 255>>,
  skyblue |-> <<135, 206, 235, 255>>,
  slateblue |-> <<106, 90, 205, 255>>,
  slategray |-> <<112, 128, 144, 255>>,
  slategrey |-> <<112, 128, 144, 255>>,
  snow |-> <<255, 250, 250, 255>>,
  springgreen |-> <<0, 255, 127, 255>>,
  steelblue |-> <<70, 130, 180, 255>>,
  tan |-> <<210, 180, 140, 255>>,
  teal |-> <<0, 128, 128, 255>>,
  thistle |-> <<216, 191, 216, 255>>,
  tomato |-> <<255, 99, 71, 255>>,
  turquoise |-> <<64, 224, 208, 255>>,
  violet |-> <<238, 130, 238, 255>>,
  wheat |-> <<245, 222, 179, 255>>,
  white |-> <<255, 255, 255, 255>>,
  whitesmoke |-> <<245, 245, 245, 255>>,
  yellow |-> <<255, 255, 0, 255>>,
  yellowgreen |-> <<154, 205, 50, 255>>,
  transparent |-> <<0, 0, 0, 0>>]

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

IsDigit(c) == c >= 48 /\ c <= 57
HexValue(c) == IF IsDigit(c) THEN c - 48 ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE 0 - 1

Bad == [k |-> "bad"]
Odd == [k |-> "odd"]

ParseHex(t) ==      \* t without the #
    LET h(k) == HexValue(t[k])
        n == Len(t) IN
    IF n \notin {3, 4, 6, 8} \/ \E k \in 1..n : HexValue(t[k]) < 0 THEN Bad
    ELSE IF n <= 4 THEN [k |-> "hex", c |-> <<17 * h(1), 17 * h(2), 17 * h(3), IF n = 4 THEN 17 * h(4) ELSE 255>>]
    ELSE [k |-> "hex", c |-> <<16 * h(1) + h(2), 16 * h(3) + h(4), 16 * h(5) + h(6), IF n = 8 THEN 16 * h(7) + h(8) ELSE 255>>]

\* ---- Numbers, with or without percent sign
RECURSIVE Decimal(_, _)
Decimal(t, k) == IF k = 0 THEN 0 ELSE 10 * Decimal(t, k - 1) + (t[k] - 48)
AllDigits(t) == \A k \in 1..Len(t) : IsDigit(t[k])

NoNumber == [ok |-> "bad"]
OddNumber == [ok |-> "odd"]
\* Characters that occur in notations of numbers that CSS does not have
OddChar(c) == IsDigit(c) \/ c \in {32, 43, 45, 46} \/ (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)

Unsigned(t) ==
    LET dots == {k \in 1..Len(t) : t[k] = 46} IN
    IF dots = {} THEN (IF t # <<>> /\ AllDigits(t) THEN (IF Len(t) <= 5 THEN [ok |-> "yes", v |-> 1000 * Decimal(t, Len(t))] ELSE OddNumber) ELSE NoNumber)
    ELSE LET p == MinOf(dots) a == SubSeq(t, 1, p - 1) b == SubSeq(t, p + 1, Len(t)) IN
         IF ~(AllDigits(a) /\ AllDigits(b)) THEN NoNumber
         ELSE IF a = <<>> \/ b = <<>> \/ Len(a) > 5 \/ Len(b) > 3 THEN OddNumber
         ELSE [ok |-> "yes", v |-> 1000 * Decimal(a, Len(a)) + Decimal(b \o SubSeq(<<48, 48, 48>>, 1, 3 - Len(b)), 3)]

\* A number may be written in ways that are left open; it must have something to do with a number
MaybeOdd(t) == IF (\E k \in 1..Len(t) : IsDigit(t[k]) \/ (t[k] >= 65)) /\ (\A k \in 1..Len(t) : OddChar(t[k]))
                    /\ Cardinality({k \in 1..Len(t) : t[k] = 46}) <= 1 THEN OddNumber ELSE NoNumber

Number(t) ==
    LET sign == t # <<>> /\ t[1] \in {43, 45}
        u == Unsigned(IF sign THEN Tail(t) ELSE t) IN
    IF u.ok = "yes" THEN [u EXCEPT !.v = IF sign /\ t[1] = 45 THEN 0 - u.v ELSE u.v]
    ELSE IF u.ok = "odd" THEN u ELSE MaybeOdd(t)

Component(t) ==     \* [ok, v, per]
    IF t # <<>> /\ t[Len(t)] = 37 THEN
        LET n == Number(SubSeq(t, 1, Len(t) - 1)) IN IF n.ok = "yes" THEN [ok |-> "yes", v |-> n.v, per |-> TRUE] ELSE n
    ELSE LET n == Number(t) IN
         IF n.ok = "yes" THEN [ok |-> "yes", v |-> n.v, per |-> FALSE]
         ELSE IF \E k \in 1..Len(t) : t[k] = 37 THEN
              \* Something after the percent sign
              (IF \A k \in 1..Len(t) : t[k] = 37 \/ OddChar(t[k]) THEN OddNumber ELSE NoNumber)
         ELSE n

RECURSIVE Split(_)
Split(t) == LET commas == {k \in 1..Len(t) : t[k] = 44} IN
    IF commas = {} THEN <<t>> ELSE LET p == MinOf(commas) IN <<SubSeq(t, 1, p - 1)>> \o Split(SubSeq(t, p + 1, Len(t)))

RECURSIVE Strip(_)
Strip(t) == IF t # <<>> /\ t[1] = 32 THEN Strip(Tail(t)) ELSE t

ParseArgs(form, alpha, args) ==
    LET parts == Split(args)
        n == IF alpha THEN 4 ELSE 3
        c == [k \in 1..Len(parts) |-> Component(IF k = 1 THEN parts[k] ELSE Strip(parts[k]))]
    IN IF Len(parts) # n THEN Bad
       ELSE IF \E k \in 1..n : c[k].ok = "bad" THEN Bad
       ELSE IF \E k \in 1..n : c[k].ok = "odd" THEN Odd
       ELSE IF alpha /\ c[4].per THEN Bad
       ELSE LET v == <<c[1].v, c[2].v, c[3].v, IF alpha THEN c[4].v ELSE 1000>> per == <<c[1].per, c[2].per, c[3].per>> IN
            IF form = "hsl" THEN (IF per = <<FALSE, TRUE, TRUE>> THEN [k |-> "hsl", c |-> v] ELSE Bad)
            ELSE IF per = <<FALSE, FALSE, FALSE>> THEN [k |-> "rgb", c |-> v]
            ELSE IF per = <<TRUE, TRUE, TRUE>> THEN [k |-> "rgbp", c |-> v]
            ELSE Bad

Labels == <<<<114, 103, 98>>, <<114, 103, 98, 97>>, <<104, 115, 108>>, <<104, 115, 108, 97>>>>

\* t: the text, s: the text as a string
Denoted(t, s) ==
    IF t # <<>> /\ t[1] = 35 THEN ParseHex(Tail(t))
    ELSE IF t # <<>> /\ t[Len(t)] = 41 THEN
        LET opens == {k \in 1..Len(t) : t[k] = 40} IN
        IF opens = {} THEN Bad
        ELSE LET p == MinOf(opens)
                 which == {k \in 1..4 : Labels[k] = SubSeq(t, 1, p - 1)} IN
             IF which = {} THEN Bad
             ELSE LET w == CHOOSE k \in which : TRUE IN ParseArgs(IF w <= 2 THEN "rgb" ELSE "hsl", w \in {2, 4}, SubSeq(t, p + 1, Len(t) - 1))
    ELSE IF s \in DOMAIN Names THEN [k |-> "name", c |-> <<s>>]
    ELSE Bad

\* ---- As hexadecimal
\* The components of 256 levels that v out of max may become: v * 256 / max rounded down, where values next to a
\* boundary may fall on either side of it
Levels(v, max) ==
    LET Level(x) == IF x < 0 THEN 0 ELSE IF x \div max > 255 THEN 255 ELSE x \div max
        tol == max \div 500
    IN {Level(256 * v - tol), Level(256 * v), Level(256 * v + tol)}

\* One component of the hue, in 600000ths
HslComp(m1, m2, h) ==
    IF h < 60 THEN 60 * m1 + (m2 - m1) * h
    ELSE IF h < 180 THEN 60 * m2
    ELSE IF h < 240 THEN 60 * m1 + (m2 - m1) * (240 - h)
    ELSE 60 * m1

\* The hexadecimal colors that a color may become (per component)
AsHex(color) ==
    LET c == color.c IN
    CASE color.k = "hex" -> [k \in 1..4 |-> {c[k]}]
      [] color.k = "name" -> [k \in 1..4 |-> {Names[c[1]][k]}]
      [] color.k = "rgb" -> [k \in 1..4 |-> Levels(c[k], IF k = 4 THEN 1000 ELSE 255000)]
      [] color.k = "rgbp" -> [k \in 1..4 |-> Levels(c[k], IF k = 4 THEN 1000 ELSE 100000)]
      [] color.k = "hsl" ->
            LET h == c[1] \div 1000 s == c[2] \div 1000 li == c[3] \div 1000
                m2 == IF li <= 50 THEN li * (s + 100) ELSE 100 * li + 100 * s - li * s
                m1 == 200 * li - m2
                At(x) == Levels(HslComp(m1, m2, x % 360), 600000)
            IN <<At(h + 120), At(h), At(h - 120), Levels(c[4], 1000)>>
=============================================================================
