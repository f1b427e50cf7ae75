----------------------------- MODULE LogConcMC -----------------------------
(* The way it is done: the limit is looked at before and after the message  *)
(* is put together, and each root is locked while the message is prefixed   *)
(* and written, piece by piece. All schedules.                              *)
EXTENDS LogConc, TLC, Json
CONSTANTS Msgs, Changes, Printing

VARIABLES pc, at, lock, pieces, left, hist
vars == <<thr, busy, taken, limit, pc, at, lock, pieces, left, hist>>
HideHist == <<thr, busy, taken, limit, pc, at, lock, pieces, left>>

\* What each thread does: levels and routes of its messages
L(t, m) == IF (t + m) % 3 = 0 THEN 6 ELSE 4
Route(t, m) == IF (t + m) % 2 = 0 THEN << 1, 2 >> ELSE IF t % 2 = 0 THEN << 2 >> ELSE << 1 >>
SetOf(s) == { s[i] : i \in DOMAIN s }

Init ==
    /\ AInit(5)
    /\ pc = [t \in Threads |-> "idle"]
    /\ at = [t \in Threads |-> 1]
    /\ lock = [r \in Roots |-> 0]
    /\ pieces = [r \in Roots |-> <<>>]
    /\ left = Changes
    /\ hist = <<>>
R(t) == Route(t, thr[t].m)[at[t]]
Go(t, where) == pc' = [pc EXCEPT ![t] = where]
Log(t) == hist' = IF Printing THEN Append(hist, t) ELSE hist
AUnch == UNCHANGED avars

Begin(t) ==
    /\ pc[t] = "idle" /\ thr[t].m < Msgs
    /\ Submit(t, L(t, thr[t].m + 1), SetOf(Route(t, thr[t].m + 1)))
    /\ Go(t, "check") /\ at' = [at EXCEPT ![t] = 1]
    /\ UNCHANGED <<lock, pieces>>
Check(t) ==
    /\ pc[t] = "check"
    /\ Go(t, IF thr[t].level <= limit THEN "format" ELSE "over")
    /\ AUnch /\ UNCHANGED <<at, lock, pieces>>
\* After formatting, the limit is looked at again
Format(t) ==
    /\ pc[t] = "format"
    /\ Go(t, IF thr[t].level <= limit THEN "lock" ELSE "over")
    /\ AUnch /\ UNCHANGED <<at, lock, pieces>>
Lock(t) ==
    /\ pc[t] = "lock" /\ lock[R(t)] = 0
    /\ lock' = [lock EXCEPT ![R(t)] = t]
    /\ Go(t, "prefix")
    /\ AUnch /\ UNCHANGED <<at, pieces>>
Prefix(t) ==
    /\ pc[t] = "prefix"
    /\ Go(t, "first")
    /\ Enter(t, R(t))
    /\ UNCHANGED <<at, lock, pieces>>
First(t) ==
    /\ pc[t] = "first"
    /\ pieces' = [pieces EXCEPT ![R(t)] = Append(@, <<t, thr[t].m, 1>>)]
    /\ Go(t, "second")
    /\ AUnch /\ UNCHANGED <<at, lock>>
Second(t) ==
    /\ pc[t] = "second"
    /\ pieces' = [pieces EXCEPT ![R(t)] = Append(@, <<t, thr[t].m, 2>>)]
    /\ Go(t, "unlock")
    /\ Leave(t, R(t))
    /\ UNCHANGED <<at, lock>>
Unlock(t) ==
    /\ pc[t] = "unlock"
    /\ lock' = [lock EXCEPT ![R(t)] = 0]
    /\ IF at[t] < Len(Route(t, thr[t].m)) THEN at' = [at EXCEPT ![t] = @ + 1] /\ Go(t, "lock")
       ELSE UNCHANGED at /\ Go(t, "over")
    /\ AUnch /\ UNCHANGED pieces
Over(t) ==
    /\ pc[t] = "over"
    /\ Done(t)
    /\ Go(t, "idle")
    /\ UNCHANGED <<at, lock, pieces>>
Change ==
    /\ left > 0
    /\ SetLimit(IF limit = 5 THEN 7 ELSE IF limit = 7 THEN 3 ELSE 5)
    /\ left' = left - 1
    /\ hist' = IF Printing THEN Append(hist, 0) ELSE hist
    /\ UNCHANGED <<pc, at, lock, pieces>>

Step(t) ==
    /\ \/ Begin(t) \/ Check(t) \/ Format(t) \/ Lock(t) \/ Prefix(t) \/ First(t) \/ Second(t) \/ Unlock(t) \/ Over(t)
    /\ Log(t) /\ UNCHANGED left
Next == (\E t \in Threads : Step(t)) \/ Change
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t))

----------------------------------------------------------------------------
\* It is one of the allowed ways
Allowed == [][ANext]_avars
\* What is written is whole messages
Whole ==
    \A r \in Roots : \A i \in DOMAIN pieces[r] :
        IF pieces[r][i][3] = 1 THEN i = Len(pieces[r]) \/ pieces[r][i + 1] = [pieces[r][i] EXCEPT ![3] = 2]
        ELSE i > 1 /\ pieces[r][i - 1] = [pieces[r][i] EXCEPT ![3] = 1]
Ended == \A t \in Threads : pc[t] = "idle" /\ thr[t].m = Msgs
\* With an unchanging limit, every message that passes it is there once
All ==
    (Ended /\ Changes = 0) =>
        \A t \in Threads, m \in 1..Msgs, r \in Roots :
            Cardinality({ i \in DOMAIN taken[r] : taken[r][i] = [t |-> t, m |-> m] })
              = (IF L(t, m) <= 5 /\ r \in SetOf(Route(t, m)) THEN 1 ELSE 0)
Terminates == <>Ended

Emit == (Printing /\ Ended) => PrintT("SCRIPT " \o ToJson([order |-> hist, msgs |-> Msgs]))
=============================================================================
