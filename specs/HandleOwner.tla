---------------------------- MODULE HandleOwner ----------------------------
(* Which file objects hold which open files. An open file is closed when the *)
(* object that holds it is closed, and also when that object is destroyed or *)
(* made to hold another one, unless it is one of the standard streams.       *)
EXTENDS Naturals, FiniteSets
CONSTANTS Slots, Std                 \* file objects are 1..Slots; the first Std of them are the standard streams
VARIABLES held, live, gone, next     \* what each object holds; open files; standard streams that were closed
ovars == <<held, live, gone, next>>
S == 1..Slots
Keep == 1..Std                       \* open files that are standard streams
OInit == held = [s \in S |-> IF s \in Keep THEN s ELSE 0] /\ live = Keep /\ gone = {} /\ next = Std + 1
Let(s) == IF held[s] \in Keep THEN live ELSE live \ {held[s]}
Open(s) == held[s] \notin Keep /\ live' = Let(s) \cup {next} /\ held' = [held EXCEPT ![s] = next] /\ next' = next + 1 /\ UNCHANGED gone
Shut(s) == live' = live \ {held[s]} /\ gone' = gone \cup ({held[s]} \cap Keep) /\ held' = [held EXCEPT ![s] = 0] /\ UNCHANGED next
Give(s, d) == s # d /\ live' = Let(d) /\ held' = [held EXCEPT ![d] = held[s], ![s] = 0] /\ UNCHANGED <<gone, next>>
Drop(s) == s \notin Keep /\ live' = Let(s) /\ held' = [held EXCEPT ![s] = 0] /\ UNCHANGED <<gone, next>>
ONext == \E s \in S : Open(s) \/ Shut(s) \/ Drop(s) \/ \E d \in S : Give(s, d)
OSpec == OInit /\ [][ONext]_ovars
Few == next <= 7
Own == {held[s] : s \in S} \ {0}
NoLeak == live \ Keep = Own \ Keep
StandardStay == live \cap Keep = Keep \ gone
Alone == \A s, d \in S : s # d /\ held[s] # 0 => held[s] # held[d]
=============================================================================
