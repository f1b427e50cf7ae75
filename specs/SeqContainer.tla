---------------------------- MODULE SeqContainer ----------------------------
(* core::Deque and core::Vector as sequences: three containers, the operations
   of their public interfaces, the effect of an exception thrown while an
   element is constructed, and the lifetime of element objects.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES cont,   \* contents of each container
          res,    \* capacity each container has promised (by reserve)
          vals    \* ghost: values ever put in

vars == <<cont, res, vals>>
Objs == 1..3

Max(a, b) == IF a > b THEN a ELSE b
Fill(n, v) == [k \in 1..n |-> v]
Take(s, n) == SubSeq(s, 1, n)
Drop(s, n) == SubSeq(s, n + 1, Len(s))

Init == cont = [o \in Objs |-> <<>>] /\ res = [o \in Objs |-> 0] /\ vals = {}

Set(o, s) == /\ cont' = [cont EXCEPT ![o] = s] /\ UNCHANGED res
             /\ vals' = vals \cup {s[k] : k \in DOMAIN s}

\* Element-wise modifications ("threw": an element constructor has thrown)
PushBack(o, v, threw) == Set(o, IF threw THEN cont[o] ELSE Append(cont[o], v))
PushFront(o, v, threw) == Set(o, IF threw THEN cont[o] ELSE <<v>> \o cont[o])
PopBack(o) == cont[o] # <<>> /\ Set(o, Take(cont[o], Len(cont[o]) - 1))
PopFront(o) == cont[o] # <<>> /\ Set(o, Tail(cont[o]))
\* Elements i (0-based) up to but not including j
Erase(o, i, j) == i <= j /\ j <= Len(cont[o]) /\ Set(o, Take(cont[o], i) \o Drop(cont[o], j))
Insert(o, i, v, threw) ==
    i <= Len(cont[o]) /\ Set(o, IF threw THEN cont[o] ELSE Take(cont[o], i) \o <<v>> \o Drop(cont[o], i))
Clear(o) == Set(o, <<>>)
Resize(o, n, v, threw) ==
    Set(o, IF threw THEN cont[o] ELSE IF n <= Len(cont[o]) THEN Take(cont[o], n)
           ELSE cont[o] \o Fill(n - Len(cont[o]), v))
\* All at once: nothing is appended if that fails
AppendAll(o, s, threw) == Set(o, IF threw THEN cont[o] ELSE cont[o] \o s)
\* One by one (from input iterators): a prefix is appended if that fails; k of them
AppendEach(o, s, k) == k \in 0..Len(s) /\ Set(o, cont[o] \o Take(s, k))
AssignAll(o, s, threw) == Set(o, IF threw THEN <<>> ELSE s)
AssignEach(o, s, k) == k \in 0..Len(s) /\ Set(o, Take(s, k))

\* Construction of a new container in place of o (empty if construction fails)
Construct(o, s, threw) ==
    /\ cont' = [cont EXCEPT ![o] = IF threw THEN <<>> ELSE s]
    /\ res' = [res EXCEPT ![o] = 0]
    /\ vals' = vals \cup {s[k] : k \in DOMAIN s}

CopyAssign(o, p, threw) ==
    IF o = p THEN ~threw /\ UNCHANGED vars
    ELSE AssignAll(o, cont[p], threw)

\* p is left valid and empty
MoveFrom(o, p) ==
    /\ o # p
    /\ cont' = [cont EXCEPT ![o] = cont[p], ![p] = <<>>]
    /\ res' = [res EXCEPT ![o] = res[p], ![p] = 0]
    /\ UNCHANGED vals

Swap(o, p) ==
    /\ cont' = [cont EXCEPT ![o] = cont[p], ![p] = cont[o]]
    /\ res' = [res EXCEPT ![o] = res[p], ![p] = res[o]]
    /\ UNCHANGED vals

Reserve(o, n, threw) ==
    /\ UNCHANGED <<cont, vals>>
    /\ res' = [res EXCEPT ![o] = IF threw THEN @ ELSE Max(@, n)]
Shrink(o, threw) == UNCHANGED <<cont, vals>> /\ res' = [res EXCEPT ![o] = IF threw THEN @ ELSE 0]

\* Number of element objects that exist
Live == Len(cont[1]) + Len(cont[2]) + Len(cont[3])

RECURSIVE Less(_, _)
Less(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
              ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE Less(Tail(a), Tail(b))

Reverse(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]

------------------------------------------------------------------------------
(* Bounded exploration: the contents never hold a value that was not put in,
   and the placement-independent laws hold.                                  *)
CONSTANTS MaxLen, Values
MCNext ==
    \E o, p \in Objs, v \in Values, i, j \in 0..MaxLen, t \in BOOLEAN :
       \/ PushBack(o, v, t) \/ PushFront(o, v, t) \/ PopBack(o) \/ PopFront(o) \/ Erase(o, i, j)
       \/ Insert(o, i, v, t) \/ Clear(o) \/ Resize(o, i, v, t) \/ AppendAll(o, Fill(i, v), t)
       \/ AppendEach(o, Fill(i, v), j) \/ AssignAll(o, Fill(i, v), t) \/ Construct(o, cont[p], t)
       \/ CopyAssign(o, p, t) \/ MoveFrom(o, p) \/ Swap(o, p) \/ Reserve(o, i, t) \/ Shrink(o, t)
MCSpec == Init /\ [][MCNext]_vars
ViewC == cont
Bound == \A o \in Objs : Len(cont'[o]) <= MaxLen
OnlyValuesPutIn == \A o \in Objs : \A k \in DOMAIN cont[o] : cont[o][k] \in vals
LessIsTotalOrder == \A o, p \in Objs : Less(cont[o], cont[p]) \/ Less(cont[p], cont[o]) \/ cont[o] = cont[p]
=============================================================================
