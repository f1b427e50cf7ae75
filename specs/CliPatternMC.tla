--------------------------- MODULE CliPatternMC ---------------------------
(* All short pattern texts, token by token, and all pairs of short         *)
(* patterns: reading is defined exactly on the texts of the grammar, the   *)
(* automaton matches what the patterns mean, and the three kinds of        *)
(* ambiguity are what they are said to be.                                 *)
EXTENDS CliPattern, Json
CONSTANTS Words, MaxTok, MaxLen, Semi, Printing

VARIABLES toks,  \* tokens so far
          stack, \* open brackets
          after  \* kind of the last token: "e" element, "o" opening or start, "b" bar
vars == <<toks, stack, after>>

Tok(k, x) == [k |-> k, x |-> x, sp |-> TRUE]
Init == toks = <<>> /\ stack = <<>> /\ after = "o"
Add(t, st, a) == toks' = Append(toks, t) /\ stack' = st /\ after' = a
Words_2 == { [k |-> IF x = "V" THEN "val" ELSE "kw", x |-> x] : x \in Words }
HasSemi == \E i \in DOMAIN toks : toks[i].k = ";"
Next ==
    /\ Len(toks) < MaxTok
    /\ \/ \E x \in Words_2 : Add(Tok(x.k, x.x), stack, "e")
       \/ \E b \in { "[", "(" } : Add(Tok(b, b), Append(stack, b), "o")
       \/ stack # <<>> /\ after = "e" /\
            LET b == stack[Len(stack)]
                c == IF b = "[" THEN "]" ELSE ")"
            IN Add(Tok(c, c), SubSeq(stack, 1, Len(stack) - 1), "e")
       \/ after = "e" /\ Add(Tok("...", "..."), stack, "e")
       \/ after = "e" /\ stack # <<>> /\ Add(Tok("|", "|"), stack, "b")
       \/ Semi /\ ~HasSemi /\ stack = <<>> /\ after # "b" /\ Add(Tok(";", ";"), stack, "o")
Spec == Init /\ [][Next]_vars

(* The text can still become a pattern within the bound. *)
Hopeful == Len(toks) + Len(stack) + (IF after = "e" \/ stack = <<>> THEN 0 ELSE 1) <= MaxTok

Whole == stack = <<>> /\ after # "b"
SemiAt == CHOOSE i \in DOMAIN toks : toks[i].k = ";"
Texts == IF HasSemi THEN << SubSeq(toks, 1, SemiAt - 1), SubSeq(toks, SemiAt + 1, Len(toks)) >> ELSE << toks >>
ShortWords == UNION { [1..n -> Words] : n \in 0..3 }
\* the longer words that can become a match
RECURSIVE Viable(_, _, _)
Viable(N, n, ws) ==
    IF n = 0 THEN ws
    ELSE LET next == TLCEval({ v \in { Append(w, x) : w \in ws, x \in Words } : Run(N, N.start, v, 1) # {} })
         IN ws \union Viable(N, n - 1, next)

Good ==
    LET rs == TLCEval([p \in DOMAIN Texts |-> ParsePattern(Texts[p])])
    IN IF ~Whole THEN HasSemi \/ ~rs[1].ok
       ELSE
         LET struct == [p \in DOMAIN rs |-> NoStructAmb(rs[p].es)]
             pats == TLCEval([p \in DOMAIN rs |-> [es |-> rs[p].es, deleg |-> p = 1]])
             N == TLCEval(Nfa(pats))
             pairs == TLCEval(Pairs(N))
             \* long enough to go twice through everything
             Least == 2 * Cardinality({ i \in DOMAIN toks : toks[i].k \in SymTypes })
             AllWords == TLCEval(ShortWords \union Viable(N, IF \A p \in DOMAIN rs : struct[p] THEN MaxLen ELSE Least, { <<>> }))
             all == TLCEval([w \in AllWords |-> TLCEval([p \in DOMAIN pats |-> Parses(pats[p].es, w)])])
             posamb == PosAmb(N, pairs)
             crossamb == CrossAmb(N, pairs)
         IN /\ (\A p \in DOMAIN rs : rs[p].ok)
            \* structural ambiguity: same positions, different structure
            /\ (\A p \in DOMAIN rs : struct[p] <=>
                  (\A w \in AllWords : Cardinality({ r.ps : r \in all[w][p] }) = Cardinality(all[w][p])))
            /\ (\A p \in DOMAIN rs : struct[p]) =>
                 /\ (\A w \in AllWords : Winners(N, Run(N, N.start, w, 1)) = { p \in DOMAIN pats : all[w][p] # {} })
                 /\ posamb <=> (\E w \in AllWords : \E p \in DOMAIN pats : Cardinality(all[w][p]) > 1)
                 /\ crossamb <=> (\E w \in AllWords : \A p \in DOMAIN pats : Len(rs) > 1 /\ all[w][p] # {})
                 /\ PrefixDeleg(N, pairs, pats) <=>
                      (\E w \in AllWords : \E n \in 0..(Len(w) - 1) :
                         /\ all[SubSeq(w, 1, n)][1] # {}
                         /\ (\E p \in DOMAIN pats : all[w][p] # {}))
Emit == (Printing /\ Whole) => PrintT("SCRIPT " \o ToJson([pats |-> Texts]))
=============================================================================
