------------------------------ MODULE RangeMap ------------------------------
(* core::RangeMap.  `pt` is the pointwise meaning: the value of each key, or
   Absent.  `rs` is the design: a list of ranges <<first, last, value>> that is
   cut at the ends of an updated range, and whose gaps in it are filled.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxKey
Absent == -1
KeySet == 0..MaxKey
VARIABLES pt, rs, hist
vars == <<pt, rs>>

\* The functions by which values are updated; the value of a new key starts as 0
Apply(f, c, v) == IF f = "set" THEN c ELSE (3 * v + c) % 1000
Start(v) == IF v = Absent THEN 0 ELSE v

Init == pt = [k \in KeySet |-> Absent] /\ rs = <<>>

UpdatePt(a, b, f, c) == pt' = [k \in KeySet |-> IF a <= k /\ k <= b THEN Apply(f, c, Start(pt[k])) ELSE pt[k]]

\* Meaning of a list of ranges
Point(s) == [k \in KeySet |-> IF \E i \in DOMAIN s : s[i][1] <= k /\ k <= s[i][2]
                              THEN s[CHOOSE i \in DOMAIN s : s[i][1] <= k /\ k <= s[i][2]][3] ELSE Absent]
WellFormed(s) == /\ \A i \in DOMAIN s : Len(s[i]) = 3
                 /\ \A i \in DOMAIN s : s[i][1] <= s[i][2]
                 /\ \A i, j \in DOMAIN s : i < j => s[i][2] < s[j][1]
NoMergeable(s) == \A i \in 1..(Len(s) - 1) : ~(s[i + 1][1] = s[i][2] + 1 /\ s[i][3] = s[i + 1][3])

\* Design
RECURSIVE Cut(_, _)
\* so that no range contains both k - 1 and k
Cut(s, k) == IF s = <<>> THEN s
             ELSE LET r == Head(s) IN
                  IF r[1] < k /\ k <= r[2] THEN << <<r[1], k - 1, r[3]>>, <<k, r[2], r[3]>> >> \o Tail(s)
                  ELSE <<r>> \o Cut(Tail(s), k)
RECURSIVE Fill(_, _, _, _, _)
\* s: ranges from key a on; all of a..b gets a value
Fill(s, a, b, f, c) ==
    IF a > b THEN s
    ELSE IF s = <<>> \/ Head(s)[1] > b THEN << <<a, b, Apply(f, c, 0)>> >> \o s
    ELSE LET r == Head(s) IN
         IF r[1] > a THEN << <<a, r[1] - 1, Apply(f, c, 0)>> >> \o Fill(s, r[1], b, f, c)
         ELSE << <<r[1], r[2], Apply(f, c, r[3])>> >> \o Fill(Tail(s), r[2] + 1, b, f, c)
UpdateRs(a, b, f, c) ==
    LET s == Cut(Cut(rs, a), b + 1)
        before(r) == r[2] < a
    IN rs' = SelectSeq(s, before) \o Fill(SelectSeq(s, LAMBDA r: r[2] >= a), a, b, f, c)
RECURSIVE Merge(_)
Merge(s) == IF Len(s) < 2 THEN s
            ELSE LET p == s[1] q == s[2] IN
                 IF q[1] = p[2] + 1 /\ p[3] = q[3] THEN Merge(<< <<p[1], q[2], p[3]>> >> \o Tail(Tail(s)))
                 ELSE <<p>> \o Merge(Tail(s))

Update(a, b, f, c) == UpdatePt(a, b, f, c) /\ UpdateRs(a, b, f, c)
Defrag == UNCHANGED pt /\ rs' = Merge(rs)

CONSTANTS Vals, MaxRanges
MCInit == Init /\ hist = <<>>
Hist(r) == hist' = Append(hist, r)
MCNext == \/ \E a, b \in KeySet, f \in {"set", "mul"}, c \in Vals :
                a <= b /\ (f = "set" \/ a = b) /\ Update(a, b, f, c) /\ Hist([a |-> a, b |-> b, f |-> f, c |-> c])
          \/ Defrag /\ Hist([a |-> 0, b |-> 0, f |-> "defrag", c |-> 0])
MCSpec == MCInit /\ [][MCNext]_<<vars, hist>>
Shape == [i \in DOMAIN rs |-> <<rs[i][1], rs[i][2], IF rs[i][3] \in Vals THEN rs[i][3] ELSE 0>>]
Small == Len(rs') <= MaxRanges /\ \A i \in DOMAIN rs' : rs'[i][3] \in Vals
Emit == PrintT("SCRIPT " \o ToJson(hist'))
Agree == Point(rs) = pt
Formed == WellFormed(rs)
DefragMerges == NoMergeable(Merge(rs)) /\ Point(Merge(rs)) = pt /\ WellFormed(Merge(rs))
=============================================================================
