---------------------------- MODULE KeyBindingsMC ----------------------------
(* Bounded model of KeyBindings.  Ghost: for each key the handler that was told
   "down" and not yet "up".  Each script is a history, one per transition.     *)
EXTENDS KeyBindings
CONSTANTS Modes, MaxMult, Handlers, MaxBinds, MaxOps
VARIABLES told, clock, hist
mcvars == <<vars, told, clock, hist>>
NB == Cardinality(UNION {{<<k, b>> : b \in bind[k]} : k \in Keys})
Op(o, k, m, n, h, t, r) == hist' = Append(hist, [o |-> o, k |-> k, m |-> m, n |-> n, h |-> h, t |-> t, r |-> r])
Perms(S) == {f \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => f[i] # f[j]}
MCInit == Init /\ told = [k \in Keys |-> 0] /\ clock = 0 /\ hist = <<>>
MCNext ==
    \/ \E k \in Keys, m \in Modes, n \in 1..MaxMult, h \in Handlers :
           /\ NB < MaxBinds /\ Bound(k, m, n) = {} /\ \A j \in Keys : slot[j] = NoSlot
           /\ Bind(k, m, n, h) /\ UNCHANGED <<told, clock>> /\ Op("bind", k, m, n, h, clock, TRUE)
    \/ \E m \in Modes : m # mode /\ SetMode(m) /\ UNCHANGED <<told, clock>> /\ Op("mode", 0, m, 0, 0, clock, TRUE)
    \/ \E k \in Keys, dt \in {0, Period, Period + 1}, r \in BOOLEAN :
           /\ Down(k, clock + dt, r) /\ (ret' = r) /\ clock' = clock + dt
           /\ told' = [told EXCEPT ![k] = IF calls' = <<>> THEN @ ELSE calls'[1].h]
           /\ Op("down", k, 0, 0, 0, clock', r)
    \/ \E k \in Keys, r \in BOOLEAN :
           /\ Up(k, r) /\ (ret' = r) /\ UNCHANGED clock
           /\ told' = [told EXCEPT ![k] = IF calls' = <<>> THEN @ ELSE 0]
           /\ Op("up", k, 0, 0, 0, clock, r)
    \/ \E S \in SUBSET {k \in Keys : slot[k].down /\ slot[k].h # 0}, r \in BOOLEAN : \E f \in Perms(S) :
           LET cs == [i \in DOMAIN f |-> [h |-> slot[f[i]].h, d |-> FALSE]] IN
           /\ IF blurring THEN Resume(cs, r) ELSE Blur(cs, r)
           /\ told' = [k \in Keys |-> IF slot'[k].h = 0 THEN 0 ELSE told[k]]
           /\ UNCHANGED clock
           /\ Op(IF blurring THEN "resume" ELSE "blur", 0, 0, Len(cs), 0, clock, r)
MCSpec == MCInit /\ [][MCNext]_mcvars
\* Ages, not times, matter
Age(k) == IF slot[k].n = 0 THEN 0 ELSE IF clock - slot[k].t > Period THEN Period + 1 ELSE clock - slot[k].t
Shape == <<bind, [k \in Keys |-> <<slot[k].down, slot[k].h, slot[k].n, IF slot[k].n = 0 THEN 0 ELSE slot[k].m, Age(k)>>], mode, blurring, todo, told>>
\* A handler told of a press is the one of the key, until it is told of the release
ToldIsSlot == \A k \in Keys : told[k] = slot[k].h /\ (told[k] # 0 => slot[k].down)
NothingHeldAfterBlur == blurring => \A k \in Keys \ todo : told[k] = 0
\* "Up" reaches the handler that was told "down", and "down" reaches nobody who is down for this key already
Pairs == [][\A i \in DOMAIN calls' : IF calls'[i].d THEN \E k \in Keys : told[k] = 0 /\ told'[k] = calls'[i].h
                                       ELSE \E k \in Keys : told[k] = calls'[i].h /\ told'[k] = 0]_mcvars
BlurReleasesAll == [][(ret' /\ blurring # blurring') => \A k \in Keys : told'[k] = 0]_mcvars
Short == Len(hist') <= MaxOps
Emit == PrintT("SCRIPT " \o ToJson(hist'))
=============================================================================
