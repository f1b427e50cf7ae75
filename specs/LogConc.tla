------------------------------ MODULE LogConc ------------------------------
(* Threads that log through loggers with shared roots and a shared limit.   *)
(* A root takes one message at a time. A message goes to each root of its   *)
(* route once, if its level passes the limit, and before the thread goes on *)
(* to its next message.                                                     *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Threads, Roots, Levels

VARIABLES thr,    \* thread: [m, level, todo, lo, hi]; m counts messages, lo and hi are bounds on the limit since the message was submitted
          busy,   \* root: the thread whose message it is taking, or 0
          taken,  \* root: messages taken so far, as [t, m]
          limit
avars == <<thr, busy, taken, limit>>

Idle == [m |-> 0, on |-> FALSE, level |-> 0, todo |-> {}, lo |-> 0, hi |-> 0]
AInit(lim) ==
    /\ thr = [t \in Threads |-> Idle]
    /\ busy = [r \in Roots |-> 0]
    /\ taken = [r \in Roots |-> <<>>]
    /\ limit = lim

Submit(t, level, route) ==
    /\ ~thr[t].on
    /\ thr' = [thr EXCEPT ![t] = [m |-> @.m + 1, on |-> TRUE, level |-> level, todo |-> route, lo |-> limit, hi |-> limit]]
    /\ UNCHANGED <<busy, taken, limit>>
Enter(t, r) ==
    /\ thr[t].on /\ r \in thr[t].todo /\ thr[t].level <= thr[t].hi
    /\ busy[r] = 0
    /\ busy' = [busy EXCEPT ![r] = t]
    /\ thr' = [thr EXCEPT ![t].todo = @ \ { r }]
    /\ taken' = [taken EXCEPT ![r] = Append(@, [t |-> t, m |-> thr[t].m])]
    /\ UNCHANGED limit
Leave(t, r) ==
    /\ busy[r] = t
    /\ busy' = [busy EXCEPT ![r] = 0]
    /\ UNCHANGED <<thr, taken, limit>>
Done(t) ==
    /\ thr[t].on
    /\ \A r \in Roots : busy[r] # t
    /\ thr[t].todo = {} \/ thr[t].level > thr[t].lo
    /\ thr' = [thr EXCEPT ![t].on = FALSE]
    /\ UNCHANGED <<busy, taken, limit>>
SetLimit(v) ==
    /\ limit' = v
    /\ thr' = [t \in Threads |-> [thr[t] EXCEPT !.lo = IF v < @ THEN v ELSE @, !.hi = IF v > @ THEN v ELSE @]]
    /\ UNCHANGED <<busy, taken>>

ANext ==
    \/ \E t \in Threads :
         \/ \E level \in Levels, route \in SUBSET Roots : Submit(t, level, route)
         \/ \E r \in Roots : Enter(t, r) \/ Leave(t, r)
         \/ Done(t)
    \/ \E v \in Levels : SetLimit(v)

----------------------------------------------------------------------------
\* Messages of a thread are in order, and none is there twice
InOrder ==
    \A r \in Roots : \A i, j \in DOMAIN taken[r] :
        (i < j /\ taken[r][i].t = taken[r][j].t) => taken[r][i].m < taken[r][j].m
=============================================================================
