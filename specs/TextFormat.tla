---------------------------- MODULE TextFormat ----------------------------
(* The text formatter, on lines of text: what each input line becomes.

   A format has a width (or none), an offset, paddings, indentations of the first
   line of a paragraph, of the first line of each later input line of the
   paragraph, and of other lines, and says whether to wrap words, to justify, to clip, to fill, and to
   normalize white space, and how to align.  An input line that shows nothing ends the paragraph.       *)
EXTENDS WordWrap

Sp == 32
Spaces(n) == [k \in 1..n |-> Sp]

\* The words of a line: <<space before, size, position>>, and the trailing space
RECURSIVE Scan(_, _, _)
Scan(s, k, from) ==     \* from: where the space before the next word begins
    IF k > Len(s) THEN [ws |-> <<>>, trail |-> Len(s) + 1 - from]
    ELSE IF s[k] = Sp THEN Scan(s, k + 1, from)
    ELSE LET e == MinOf({x \in k + 1..Len(s) + 1 : x = Len(s) + 1 \/ s[x] = Sp})
             r == Scan(s, e, e)
         IN [ws |-> <<<<k - from, e - k, k>>>> \o r.ws, trail |-> r.trail]

Units(s, f) == LET u == Scan(s, 1, 1) IN
    IF ~f.norm THEN u
    ELSE [ws |-> [k \in 1..Len(u.ws) |-> <<IF k = 1 THEN 0 ELSE 1, u.ws[k][2], u.ws[k][3]>>], trail |-> 0]

ShowsNothing(s, f) == LET u == Units(s, f) IN u.ws = <<>> /\ u.trail = 0

HasWidth(f) == f.width >= 0
Big == 1000000
InnerRight(f) == IF ~HasWidth(f) THEN Big ELSE IF f.offset + f.width - f.padr < 0 THEN 0 ELSE f.offset + f.width - f.padr
OuterRight(f) == IF ~HasWidth(f) THEN Big ELSE f.offset + f.width
InnerLeft(f, indent) == f.offset + f.padl + indent
Room(f, indent) == IF InnerLeft(f, indent) > InnerRight(f) THEN 0 ELSE InnerRight(f) - InnerLeft(f, indent)
Clips(f) == f.clip /\ HasWidth(f)
Fills(f) == f.fill /\ HasWidth(f)

Geom(f, first) == <<<<Room(f, first), 1>>, <<Room(f, f.rest), 1>>>>

\* The text of a line that holds units i..j, with the spaces between words as given by gap
RECURSIVE Piece(_, _, _, _, _)
Piece(s, u, i, j, gap) == IF i > j THEN <<>> ELSE Spaces(gap[i]) \o SubSeq(s, u.ws[i][3], u.ws[i][3] + u.ws[i][2] - 1) \o Piece(s, u, i + 1, j, gap)

NaturalGap(u, i, j) == [k \in i..j |-> IF k = i /\ k > 1 THEN 0 ELSE u.ws[k][1]]

Pad(t, n) == IF Len(t) >= n THEN t ELSE t \o Spaces(n - Len(t))
Cut(t, n) == IF Len(t) <= n THEN t ELSE SubSeq(t, 1, n)
Finish(t, f) == LET c == IF Clips(f) THEN Cut(t, OuterRight(f)) ELSE t IN IF Fills(f) THEN Pad(c, OuterRight(f)) ELSE c

Shift(f, excess) == IF ~HasWidth(f) THEN 0 ELSE CASE f.align = "left" -> 0 [] f.align = "right" -> excess [] OTHER -> (excess + 1) \div 2

\* Line that is not justified
Plain(s, u, f, indent, i, j, trail) ==
    LET text == Piece(s, u, i, j, NaturalGap(u, i, j)) \o Spaces(trail)
        room == Room(f, indent)
        excess == IF Len(text) >= room THEN 0 ELSE room - Len(text)
    IN IF Clips(f) /\ InnerLeft(f, indent) >= OuterRight(f) THEN Finish(Spaces(f.offset), f)
       ELSE Finish(Spaces(InnerLeft(f, indent) + Shift(f, excess)) \o text, f)

\* Is t the justified line of units i..j (at least 2)? The outermost words are at the ends of the
\* room, and each other word is less than one position away from where the rubber band has it.
RECURSIVE SumGaps(_, _, _)
SumGaps(gap, i, k) == IF k < i THEN 0 ELSE gap[k] + SumGaps(gap, i, k - 1)
RECURSIVE SumSizes(_, _, _)
SumSizes(u, i, k) == IF k < i THEN 0 ELSE u.ws[k][2] + SumSizes(u, i, k - 1)
\* Where word k begins in the natural, and in the given line
LeftOf(u, gap, i, k) == SumGaps(gap, i, k) + SumSizes(u, i, k - 1)
IsJustified(t, s, u, f, indent, i, j) ==
    LET nat == NaturalGap(u, i, j)
        size == LeftOf(u, nat, i, j) + u.ws[j][2]
        room == Room(f, indent)
        left == InnerLeft(f, indent)
        got == Scan(SubSeq(t, left + 1, Len(t)), 1, 1)
        gap == [k \in i..j |-> got.ws[k - i + 1][1]]
        stretch == room - size
        \* Twice the distance between the centers of the outermost words
        dist == 2 * (LeftOf(u, nat, i, j) - LeftOf(u, nat, i, i)) + u.ws[j][2] - u.ws[i][2]
    IN IF size >= room THEN t = Plain(s, u, f, indent, i, j, 0)
       ELSE /\ Len(t) >= left /\ SubSeq(t, 1, left) = Spaces(left)
            /\ Len(got.ws) = j - i + 1
            /\ t = Finish(Spaces(left) \o Piece(s, u, i, j, gap), f)
            /\ gap[i] = nat[i]
            /\ LeftOf(u, gap, i, j) + u.ws[j][2] = room
            /\ \A k \in i + 1..j - 1 :
                 /\ gap[k] >= 1
                 \* 2 * where word k is, and the distance between its center and that of the first one
                 /\ LET c == 2 * (LeftOf(u, nat, i, k) - LeftOf(u, nat, i, i)) + u.ws[k][2] - u.ws[i][2]
                        \* Stretched distance minus natural one is c * 2 * stretch / dist
                        move == 2 * (LeftOf(u, gap, i, k) - LeftOf(u, nat, i, k))
                    IN move * dist > c * 2 * stretch - 2 * dist - 1 /\ move * dist < c * 2 * stretch + 2 * dist + 1

\* Are these the output lines of the input line?
IsLayout(out, s, f, first, hq, opened) ==
    LET u == Units(s, f)
        ws == [k \in 1..Len(u.ws) |-> <<u.ws[k][1], u.ws[k][2]>>]
        n == Len(out)
        \* From the lines themselves, as there may be several best ones
        Count(k) == Len(Scan(out[k], 1, 1).ws)
        cum[k \in 0..n] == IF k = 0 THEN 0 ELSE cum[k - 1] + Count(k)
        bp == IF ~(f.wrap /\ HasWidth(f)) THEN <<>>
              ELSE IF hq THEN [k \in 1..n - 1 |-> cum[k]] ELSE Greedy(ws, u.trail, Geom(f, first), 0)
        From(k) == IF k = 1 THEN 1 ELSE bp[k - 1] + 1
        To(k) == IF k = Len(bp) + 1 THEN Len(ws) ELSE bp[k]
        Indent(k) == IF k = 1 THEN first ELSE f.rest
    IN /\ n = Len(bp) + 1
       /\ ((hq /\ f.wrap /\ HasWidth(f)) => /\ IsWrapping(ws, u.trail, Geom(f, first), 0, bp)
                 /\ Badness(ws, Geom(f, first), 0, bp) = LeastBadness(ws, u.trail, Geom(f, first), 0))
       /\ \A k \in 1..n :
            IF k < n /\ f.justify /\ HasWidth(f) /\ To(k) > From(k) THEN IsJustified(out[k], s, u, f, Indent(k), From(k), To(k))
            ELSE out[k] = Plain(s, u, f, Indent(k), From(k), To(k), IF k = n THEN u.trail ELSE 0)

BlankLine(f) == IF Fills(f) /\ f.width > 0 THEN Spaces(OuterRight(f)) ELSE <<>>
=============================================================================
