----------------------------- MODULE KeyBindings -----------------------------
(* Key bindings: which handler is told what, when keys are pressed and released,
   the modifier mode changes and focus is lost.
   bind[k] is the set of [m, n, h]: handler h is bound to key k in modifier mode m
   for the n-th of consecutive presses (at most one h for each m, n).
   slot[k] is the state of the key: whether it is down, the handler told so
   (0: none), and what the next press may be connected to (n, t, m; n = 0: none).
   A focus loss releases every key; a handler may interrupt that (`todo` is then
   what remains to be released).                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Keys
VARIABLES bind, slot, mode, blurring, todo, calls, ret
vars == <<bind, slot, mode, blurring, todo, calls, ret>>

Period == 250
NoSlot == [down |-> FALSE, h |-> 0, n |-> 0, t |-> 0, m |-> 0]
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MaxN(k) == IF bind[k] = {} THEN 0 ELSE MaxOf({b.n : b \in bind[k]})
Bound(k, m, n) == {b.h : b \in {x \in bind[k] : x.m = m /\ x.n = n}}
HandlerOf(k, m, n) == IF Bound(k, m, n) = {} THEN 0 ELSE CHOOSE h \in Bound(k, m, n) : TRUE

Init == /\ bind = [k \in Keys |-> {}] /\ slot = [k \in Keys |-> NoSlot]
        /\ mode = 0 /\ blurring = FALSE /\ todo = {} /\ calls = <<>> /\ ret = TRUE

\* A binding replaces the one of the same key, mode and multiplicity, and makes the key start afresh
Bind(k, m, n, h) ==
    /\ bind' = [bind EXCEPT ![k] = {b \in @ : ~(b.m = m /\ b.n = n)} \cup {[m |-> m, n |-> n, h |-> h]}]
    /\ slot' = [slot EXCEPT ![k].down = FALSE, ![k].n = 0, ![k].h = 0]
    /\ todo' = todo \ {k} /\ calls' = <<>> /\ ret' = TRUE
    /\ UNCHANGED <<mode, blurring>>
SetMode(m) == mode' = m /\ calls' = <<>> /\ ret' = TRUE /\ UNCHANGED <<bind, slot, blurring, todo>>

\* Handlers answer r: TRUE (proceed) or FALSE (interrupt)
Tell(h, down, r) == IF h = 0 THEN calls' = <<>> /\ ret' = TRUE ELSE calls' = <<[h |-> h, d |-> down]>> /\ ret' = r

Down(k, t, r) ==
    /\ ~blurring
    /\ UNCHANGED <<bind, mode, blurring, todo>>
    /\ IF bind[k] = {} \/ slot[k].down THEN Tell(0, TRUE, TRUE) /\ UNCHANGED slot
       ELSE LET s == slot[k]
                connected == s.n > 0 /\ s.m = mode /\ t - s.t <= Period /\ s.n < MaxN(k)
                n == IF connected THEN s.n + 1 ELSE 1
                h == HandlerOf(k, mode, n) IN
            /\ slot' = [slot EXCEPT ![k] = [down |-> TRUE, h |-> h, n |-> n, t |-> t, m |-> mode]]
            /\ Tell(h, TRUE, r)
Up(k, r) ==
    /\ ~blurring
    /\ UNCHANGED <<bind, mode, blurring, todo>>
    /\ IF ~slot[k].down THEN Tell(0, FALSE, TRUE) /\ UNCHANGED slot
       ELSE /\ slot' = [slot EXCEPT ![k].down = FALSE, ![k].h = 0]
            /\ Tell(slot[k].h, FALSE, r)

\* Releases, in any order, until everything is released or a handler interrupts:
\* cs is the handlers called, r whether the last of them let processing proceed
Count(S, h) == Cardinality({k \in S : slot[k].h = h})
Release(from, cs, r) ==
    \E left \in SUBSET from :
        /\ \A h \in {slot[k].h : k \in from} \cup {cs[i].h : i \in DOMAIN cs} :
               Count(from \ left, h) = Cardinality({i \in DOMAIN cs : cs[i].h = h})
        /\ \A i \in DOMAIN cs : cs[i].d = FALSE
        /\ r => left = {}
        /\ ~r => cs # <<>>
        /\ todo' = left /\ blurring' = ~r /\ calls' = cs /\ ret' = r
        /\ UNCHANGED <<bind, mode>>
Fresh == [k \in Keys |-> [slot[k] EXCEPT !.down = (k \in todo'), !.n = 0, !.h = IF k \in todo' THEN @ ELSE 0]]
Blur(cs, r) == /\ ~blurring
               /\ Release({k \in Keys : slot[k].down /\ slot[k].h # 0}, cs, r)
               /\ slot' = Fresh
Resume(cs, r) == IF blurring THEN Release(todo, cs, r) /\ slot' = Fresh
                 ELSE cs = <<>> /\ r /\ calls' = <<>> /\ ret' = TRUE /\ UNCHANGED <<bind, slot, mode, blurring, todo>>
=============================================================================
