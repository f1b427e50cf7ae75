------------------------------ MODULE VectorGen ------------------------------
(* Design model of the vector's storage: elements live in place (up to NS of
   them) or in owned memory; growth reallocates, shrinking reallocates to the
   exact size, moving steals owned memory or moves elements one by one.
   Two vectors; refinement: each one's slots hold exactly the abstract
   sequence.  One script per transition between storage shapes.             *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS NS, MaxCap
VARIABLES mem,    \* mem[o]: sequence of `cap` slots (0: no object)
          own, size, seq, next, hist
vars == <<mem, own, size, seq, next, hist>>
Objs == {1, 2}
Slots(n) == [k \in 1..n |-> 0]
Cap(o) == Len(mem[o])
Max(a, b) == IF a > b THEN a ELSE b

Init == /\ mem = [o \in Objs |-> Slots(NS)] /\ own = [o \in Objs |-> FALSE]
        /\ size = [o \in Objs |-> 0] /\ seq = [o \in Objs |-> <<>>] /\ next = 1 /\ hist = <<>>

Grow(cur, need) == IF cur >= need THEN cur ELSE Max(cur + cur \div 2, need)
Realloc(o, c) == [k \in 1..c |-> IF k <= size[o] THEN mem[o][k] ELSE 0]
\* Memory of o when n elements must fit
Room(o, n) == IF n <= Cap(o) THEN mem[o] ELSE Realloc(o, Grow(Cap(o), n))
Owned(o, n) == own[o] \/ n > Cap(o)
Rec(op, o, i, j, n) == [op |-> op, o |-> o, p |-> 3 - o, i |-> i, j |-> j, n |-> n]
Step(r, s) == seq' = [seq EXCEPT ![r.o] = s] /\ next' = next + 1 /\ hist' = Append(hist, r)

AppendN(o, op, n) ==
    LET m == Room(o, size[o] + n) IN
    /\ mem' = [mem EXCEPT ![o] = [k \in 1..Len(m) |-> IF k > size[o] /\ k <= size[o] + n THEN next ELSE m[k]]]
    /\ own' = [own EXCEPT ![o] = Owned(o, size[o] + n)]
    /\ size' = [size EXCEPT ![o] = @ + n]
    /\ Step(Rec(op, o, 0, 0, IF op = "resize" THEN size[o] + n ELSE n), seq[o] \o [k \in 1..n |-> next])
Cut(o, op, n) == \* to n elements
    /\ n <= size[o]
    /\ mem' = [mem EXCEPT ![o] = [k \in 1..Cap(o) |-> IF k <= n THEN mem[o][k] ELSE 0]]
    /\ size' = [size EXCEPT ![o] = n] /\ UNCHANGED own
    /\ Step(Rec(op, o, 0, 0, n), SubSeq(seq[o], 1, n))
Insert(o, i) ==
    LET m == Room(o, size[o] + 1) IN
    /\ i <= size[o]
    /\ mem' = [mem EXCEPT ![o] = [k \in 1..Len(m) |-> IF k <= i THEN m[k] ELSE IF k = i + 1 THEN next
                                                      ELSE IF k <= size[o] + 1 THEN m[k - 1] ELSE 0]]
    /\ own' = [own EXCEPT ![o] = Owned(o, size[o] + 1)]
    /\ size' = [size EXCEPT ![o] = @ + 1]
    /\ Step(Rec("insert", o, i, 0, 0), SubSeq(seq[o], 1, i) \o <<next>> \o SubSeq(seq[o], i + 1, size[o]))
Erase(o, i, j) ==
    /\ i <= j /\ j <= size[o]
    /\ mem' = [mem EXCEPT ![o] = [k \in 1..Cap(o) |-> IF k <= i THEN mem[o][k]
                                                      ELSE IF k + (j - i) <= size[o] THEN mem[o][k + (j - i)] ELSE 0]]
    /\ size' = [size EXCEPT ![o] = @ - (j - i)] /\ UNCHANGED own
    /\ Step(Rec("erase", o, i, j, 0), SubSeq(seq[o], 1, i) \o SubSeq(seq[o], j + 1, size[o]))
Shrink(o) ==
    /\ mem' = [mem EXCEPT ![o] = IF own[o] THEN Realloc(o, size[o]) ELSE @]
    /\ UNCHANGED <<own, size>> /\ Step(Rec("shrink", o, 0, 0, 0), seq[o])
Reserve(o, n) ==
    /\ mem' = [mem EXCEPT ![o] = Room(o, n)] /\ own' = [own EXCEPT ![o] = Owned(o, n)]
    /\ UNCHANGED size /\ Step(Rec("reserve", o, 0, 0, n), seq[o])
MoveAssign(o) ==
    LET p == 3 - o IN
    \* the capacity goes along, also when the elements live in place
    /\ mem' = [mem EXCEPT ![o] = mem[p], ![p] = <<>>]
    /\ own' = [own EXCEPT ![o] = own[p], ![p] = FALSE]
    /\ size' = [size EXCEPT ![o] = size[p], ![p] = 0]
    /\ seq' = [seq EXCEPT ![o] = seq[p], ![p] = <<>>] /\ next' = next + 1
    /\ hist' = Append(hist, Rec("move_assign", o, 0, 0, 0))

Next == \E o \in Objs :
           \/ AppendN(o, "append", 1) \/ AppendN(o, "append", 2) \/ AppendN(o, "resize", 1) \/ AppendN(o, "resize", 3)
           \/ (size[o] > 0 /\ Cut(o, "pop_back", size[o] - 1)) \/ Cut(o, "clear", 0)
           \/ \E n \in 0..MaxCap : Cut(o, "resize", n) \/ Insert(o, n) \/ (n > 0 /\ Reserve(o, n))
           \/ \E i, j \in 0..MaxCap : Erase(o, i, j)
           \/ Shrink(o) \/ MoveAssign(o)
Spec == Init /\ [][Next]_vars
Shape == <<[o \in Objs |-> Cap(o)], own, size>>
Bound == \A o \in Objs : Cap(o) <= MaxCap
Fits == \A o \in Objs : size[o] <= Cap(o) /\ (~own[o] => Cap(o) <= NS)
Refines == \A o \in Objs : seq[o] = SubSeq(mem[o], 1, size[o]) /\ Len(seq[o]) = size[o]
NothingBeyond == \A o \in Objs : \A k \in (size[o] + 1)..Cap(o) : mem[o][k] = 0
Emit == (\A o \in Objs : Len(mem'[o]) <= MaxCap) => PrintT("SCRIPT " \o ToJson(hist'))
=============================================================================
