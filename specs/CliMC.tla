-------------------------------- MODULE CliMC --------------------------------
(* All short command lines for some specifications.                        *)
EXTENDS Cli, Json
CONSTANTS MaxArgs, Which, Printing

VARIABLE args

(* -x (also --foo) is a plain option, -o (--out) has an argument, -q may   *)
(* have one, -s is a short circuit, -- makes everything after it a value.  *)
O(id, forms, arg, kind) ==
    [id |-> id, forms |-> forms, arg |-> arg, sc |-> FALSE, stop |-> FALSE, badforms |-> FALSE, badarg |-> FALSE,
     badattr |-> FALSE, takes |-> "may", act |-> TRUE, kind |-> kind, dflt |-> "D", cond |-> "", assign |-> FALSE, var |-> 1]
Opts == << O(0, { "-x", "--foo" }, "none", "s"), O(1, { "-o", "--out" }, "req", "i"), O(2, { "-q" }, "opt", "s"),
           [O(3, { "-s" }, "none", "s") EXCEPT !.sc = TRUE],
           [O(4, { "--" }, "none", "s") EXCEPT !.stop = TRUE, !.act = FALSE, !.takes = "never"] >>

T(k, x) == [k |-> k, x |-> x, sp |-> TRUE]
Kw(x) == T("kw", x)
Val == T("val", "<v>")
P(k) == T(k, k)
Ty(k, subs) == [k |-> k, subs |-> subs]
Str == Ty("s", <<>>)
List == Ty("r", << Ty("t", << Str >>) >>)
Fun(id, toks, types) ==
    [id |-> id, toks |-> toks, types |-> types, bad |-> FALSE, deleg |-> FALSE, badattr |-> FALSE, fn |-> TRUE,
     compl |-> FALSE, ret |-> 0, sub |-> 0]
Spec1 == [ opts |-> Opts, xamb |-> FALSE, pamb |-> FALSE,
           pats |-> << Fun(10, << Kw("a"), Val, P("...") >>, << List >>),
                       Fun(11, << P("["), Val, P("]") >>, << Ty("o", << Ty("t", << Str >>) >>) >>) >> ]
(* An option that plays a part in a pattern. *)
Spec2 == [ opts |-> Opts, xamb |-> FALSE, pamb |-> FALSE,
           pats |-> << Fun(10, << T("so", "-x"), Val >>, << Str >>),
                       Fun(11, << P("("), Kw("a"), P("|"), Kw("b"), P(")"), P("..."), P("["), T("lo", "--foo"), P("]") >>,
                           << Ty("r", << Ty("t", << Ty("n", <<>>) >>) >>), Ty("b", <<>>) >>) >> ]
Spec3 == [ opts |-> << O(0, { "-x" }, "none", "s"), [O(1, { "-o" }, "opt", "i") EXCEPT !.assign = TRUE] >>,
           xamb |-> FALSE, pamb |-> FALSE,
           pats |-> << [Fun(10, << Kw("a") >>, <<>>) EXCEPT !.deleg = TRUE, !.fn = FALSE, !.sub = 2],
                       Fun(11, << Kw("b") >>, <<>>) >> ]
Spec4 == [ opts |-> << O(5, { "-x", "--foo" }, "none", "s"), O(6, { "--out" }, "req", "i") >>, xamb |-> FALSE, pamb |-> TRUE,
           pats |-> << Fun(12, << Val, P("..."), P("["), Val, P("]") >>,
                           << List, Ty("o", << Ty("t", << Str >>) >>) >>) >> ]
Specs == CASE Which = 1 -> << Spec1 >> [] Which = 2 -> << Spec2 >> [] OTHER -> << Spec3, Spec4 >>
Cs == TLCEval([k \in DOMAIN Specs |-> TLCEval(Context(Specs[k]))])

Args == { <<"a">>, <<"b">>, <<"-">>, <<"7">>, <<"-", "x">>, <<"-", "o">>, <<"-", "o", "7">>, <<"-", "x", "o">>, <<"-", "q">>,
          <<"-", "x", "x">>, <<"-", "q", "x">>, <<"-", "o", "-">>, <<"-", "s">>, <<"-", "-">>, <<"-", "-", "f", "o", "o">>,
          <<"-", "-", "o", "u", "t", "=", "7">>, <<"-", "-", "o", "u", "t">>, <<"-", "-", "f", "o", "o", "=">>, <<"-", "z">> }
Vars0 == << "one" >>

Init == args = <<>>
Next == Len(args) < MaxArgs /\ \E a \in Args : args' = Append(args, a)
Spec == Init /\ [][Next]_args

----------------------------------------------------------------------------
Runs == Results(Cs, args, Vars0)
St == Scan(Cs[1], args, Begin(Cs[1], 1, FALSE))

(* The specifications are good. *)
Accepted == \A k \in DOMAIN Specs : Verdict(Specs[k], "")

(* Failure is reported, and reported as failure; a failed run executes no  *)
(* pattern.                                                                *)
Sane ==
    LET rs == TLCEval(Runs)
    IN /\ rs # {}
       /\ (\A r \in rs : /\ (r.errs # <<>>) => (r.ret /\ r.status = FailStatus)
                         /\ (r.status = FailStatus) => (r.errs # <<>>)
                         /\ (\A e \in DOMAIN r.errs : r.errs[e][1] \in 1..(Len(args) + 1))
                         /\ (r.errs # <<>>) => (\A k \in DOMAIN r.log : r.log[k] \notin { "p10", "p11", "p12" }))

(* In a good run, every argument is accounted for by being a symbol of the *)
(* pattern, or an option, or the argument of an option, and what is left   *)
(* after the options matches the pattern. After a stop option there are    *)
(* only values.                                                            *)
Accounted ==
    LET st == TLCEval(St)
        own == { st.syms[k].i : k \in DOMAIN st.syms } \union { st.inv[k].i : k \in DOMAIN st.inv }
        given == { st.inv[k].i + 1 : k \in { k \in DOMAIN st.inv : st.inv[k].has /\ st.inv[k].i < Len(args)
                                                     /\ st.inv[k].val = args[st.inv[k].i + 1] } }
        stops == { st.inv[k].i : k \in { k \in DOMAIN st.inv : Cs[1].S.opts[st.inv[k].o].stop } }
        w == [k \in DOMAIN st.syms |-> st.syms[k].x]
    IN (st.res = "match" /\ ~st.err) =>
         /\ 1..Len(args) \subseteq own \union given
         /\ Parses(Cs[1].es[st.opt], w) # {}
         /\ (\A p \in DOMAIN Cs[1].es : p # st.opt => Parses(Cs[1].es[p], w) = {})
         /\ (\A s \in stops : (\A k \in DOMAIN st.syms : st.syms[k].i > s => st.syms[k].x = "<")
                              /\ (\A k \in DOMAIN st.inv : st.inv[k].i <= s))
         /\ (\A j, k \in DOMAIN st.inv : j < k => st.inv[j].i <= st.inv[k].i)

(* Different ways of writing the same. Results are compared without the    *)
(* indexes of arguments.                                                   *)
Unindexed(rs) == { [r EXCEPT !.errs = [k \in DOMAIN r.errs |-> r.errs[k][2]]] : r \in rs }
Same(other) == Unindexed(Results(Cs, other, Vars0)) = Unindexed(Runs)
Splice(i, as) == SubSeq(args, 1, i - 1) \o as \o SubSeq(args, i + 1, Len(args))
NoStop(i) == \A k \in 1..(i - 1) : args[k] # <<"-", "-">>
\* the argument is not that of the option before it
Free(i) == i = 1 \/ args[i - 1] \notin { <<"-", "o">>, <<"-", "x", "o">>, <<"-", "-", "o", "u", "t">> }
Equivalent ==
    \A i \in DOMAIN args :
      (NoStop(i) /\ Free(i) /\ Which \in {1, 2} /\ St.res = "match" /\ ~St.err) =>
        CASE args[i] = <<"-", "o", "7">> -> Same(Splice(i, << <<"-", "o">>, <<"7">> >>))
          [] args[i] = <<"-", "-", "o", "u", "t", "=", "7">> ->
               Same(Splice(i, << <<"-", "-", "o", "u", "t">>, <<"7">> >>)) /\ Same(Splice(i, << <<"-", "o", "7">> >>))
          [] args[i] = <<"-", "x", "x">> -> Same(Splice(i, << <<"-", "x">>, <<"-", "-", "f", "o", "o">> >>))
          [] args[i] = <<"-", "x", "o">> -> Same(Splice(i, << <<"-", "x">>, <<"-", "o">> >>))
          [] OTHER -> TRUE

(* Options that play no part in patterns can stand anywhere among the other*)
(* arguments.                                                              *)
Mobile ==
    \A i \in DOMAIN args :
      (Which = 1 /\ i < Len(args) /\ NoStop(i) /\ Free(i) /\ args[i] = <<"-", "x">> /\ args[i + 1][1] # "-") =>
        Same(SubSeq(args, 1, i - 1) \o << args[i + 1], args[i] >> \o SubSeq(args, i + 2, Len(args)))

Emit == (Printing /\ Len(args) = MaxArgs) => PrintT("SCRIPT " \o ToJson([args |-> args, which |-> Which]))
=============================================================================
