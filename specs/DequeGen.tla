------------------------------ MODULE DequeGen ------------------------------
(* Design model of the deque's circular storage: a memory of `alloc` slots, the
   contents placed from slot `off` on, wrapping around.  Refinement: reading
   the slots in order always gives the abstract sequence.  One script is
   printed per transition between placements <<alloc, off, size>>.           *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS MaxAlloc
VARIABLES mem, off, size, alloc, seq, next, hist
vars == <<mem, off, size, alloc, seq, next, hist>>

Init == mem = <<>> /\ off = 0 /\ size = 0 /\ alloc = 0 /\ seq = <<>> /\ next = 1 /\ hist = <<>>

Min(a, b) == IF a < b THEN a ELSE b
Wrap(i) == (off + i) % alloc
Slot(i) == mem[Wrap(i) + 1]
Contents == [k \in 1..size |-> Slot(k - 1)]

Grow(cur, need) == IF cur >= need THEN cur ELSE IF cur + cur \div 2 >= need THEN cur + cur \div 2 ELSE need
\* Memory, offset and size of the ring after making room for n elements
Room(n) == LET need == n + 1 IN
           IF n = 0 \/ need <= alloc THEN [m |-> mem, o |-> off, a |-> alloc]
           ELSE LET a == Grow(alloc, need) IN
                [m |-> [k \in 1..a |-> IF k <= size THEN Slot(k - 1) ELSE 0], o |-> 0, a |-> a]
Put(m, o, a, i, v) == [m EXCEPT ![((o + i) % a) + 1] = v]

Step(op, s) == /\ seq' = s /\ next' = next + 1 /\ hist' = Append(hist, op)

AppendN(n) ==
    LET r == Room(size + n) IN
    /\ IF n = 0 THEN UNCHANGED mem
       ELSE mem' = [k \in 1..r.a |->
                      LET i == (k - 1 - r.o + r.a) % r.a IN
                      IF i >= size /\ i < size + n THEN next ELSE r.m[k]]
    /\ off' = r.o /\ alloc' = r.a /\ size' = size + n
    /\ Step([op |-> "append", n |-> n], seq \o [k \in 1..n |-> next])
PushFront ==
    LET r == Room(size + 1) o == (r.o - 1 + r.a) % r.a IN
    /\ mem' = [r.m EXCEPT ![o + 1] = next] /\ off' = o /\ alloc' = r.a /\ size' = size + 1
    /\ Step([op |-> "push_front", n |-> 0], <<next>> \o seq)
PopFront == /\ size > 0 /\ off' = Wrap(1) /\ size' = size - 1 /\ UNCHANGED <<mem, alloc>>
            /\ Step([op |-> "pop_front", n |-> 0], Tail(seq))
PopBack == /\ size > 0 /\ size' = size - 1 /\ UNCHANGED <<mem, alloc, off>>
           /\ Step([op |-> "pop_back", n |-> 0], SubSeq(seq, 1, size - 1))
Erase(i, j) ==
    LET n == j - i  near == (size - j) > i IN
    /\ i <= j /\ j <= size
    /\ off' = IF n > 0 /\ near THEN Wrap(n) ELSE off
    /\ size' = size - n /\ UNCHANGED alloc
    /\ mem' = IF n = 0 THEN mem
              ELSE [k \in 1..alloc |->
                      LET p == (k - 1 - off + alloc) % alloc IN   \* logical position of the slot
                      IF near THEN (IF p >= n /\ p < j THEN Slot(p - n) ELSE mem[k])
                      ELSE (IF p >= i /\ p + n < size THEN Slot(p + n) ELSE mem[k])]
    /\ Step([op |-> "erase", i |-> i, j |-> j], SubSeq(seq, 1, i) \o SubSeq(seq, j + 1, size))
Shrink ==
    /\ alloc > 0
    /\ IF size = 0 THEN mem' = <<>> /\ off' = 0 /\ alloc' = 0
       ELSE IF size + 1 < alloc
            THEN mem' = [k \in 1..(size + 1) |-> IF k <= size THEN Slot(k - 1) ELSE 0] /\ off' = 0 /\ alloc' = size + 1
            ELSE UNCHANGED <<mem, off, alloc>>
    /\ UNCHANGED size /\ Step([op |-> "shrink", n |-> 0], seq)
Resize(n) == /\ n < size /\ size' = n /\ UNCHANGED <<mem, off, alloc>>
             /\ Step([op |-> "resize", n |-> n], SubSeq(seq, 1, n))

Next == \/ \E n \in 0..3 : AppendN(n)
        \/ PushFront \/ PopFront \/ PopBack \/ Shrink
        \/ \E i, j \in 0..MaxAlloc : Erase(i, j)
        \/ \E n \in 0..MaxAlloc : Resize(n)
Spec == Init /\ [][Next]_vars
Bound == alloc <= MaxAlloc
View == <<alloc, off, size>>
Refines == (size > 0 => alloc > size /\ off < alloc) /\ Contents = seq
Emit == (alloc' <= MaxAlloc) => PrintT("SCRIPT " \o ToJson(hist'))
=============================================================================
