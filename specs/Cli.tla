-------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* Processing of a command line: options are recognized and set apart, the *)
(* remaining arguments are matched against the patterns, and then the      *)
(* actions of the options and of the matched pattern are executed.         *)
(*                                                                         *)
(* A specification has patterns [es, deleg, compl, ret, types, sub] and    *)
(* options [forms, arg, sc, stop, kind, dflt, cond]. Arguments are         *)
(* sequences of characters. Errors are <<argument index, code>>.           *)
(***************************************************************************)
EXTENDS CliPattern, Integers, SequencesExt

RECURSIVE Join(_)
Join(cs) == IF cs = <<>> THEN "" ELSE Head(cs) \o Join(Tail(cs))

----------------------------------------------------------------------------
(* Validity of a specification. *)

(* arg is "none", "req" or "opt". What the action can do: "never" takes an *)
(* argument, "may" (has something to use when there is none), "must".      *)
OptErrors(opts, i) ==
    LET o == opts[i]
    IN { c \in { "bad_option_forms_syntax", "bad_option_arg_syntax", "bad_option_attr",
                 "option_arg_not_allowed", "option_func_mismatch", "option_form_reuse" } :
           CASE c = "bad_option_forms_syntax" -> o.badforms \/ o.forms = {}
             [] c = "bad_option_arg_syntax" -> o.badarg
             [] c = "bad_option_attr" -> o.badattr
             [] c = "option_arg_not_allowed" -> o.arg # "none" /\ (o.sc \/ o.stop)
             [] c = "option_func_mismatch" -> \/ o.arg # "none" /\ o.takes = "never"
                                              \/ o.arg # "req" /\ o.takes = "must"
             [] c = "option_form_reuse" -> \E j \in 1..(i - 1) : opts[j].forms \intersect o.forms # {} }

OptOf(opts, form) ==
    LET is == { i \in DOMAIN opts : form \in opts[i].forms }
    IN IF is = {} THEN 0 ELSE CHOOSE i \in is : \A j \in is : i <= j

(* All forms of a declared option are the same symbol. Keywords, forms and *)
(* value slots are told apart by their first character.                    *)
SymName(opts, e) ==
    CASE e.t = "val" -> "<"
      [] e.t = "kw" -> "=" \o e.x
      [] OTHER -> LET o == OptOf(opts, e.x) IN IF o = 0 THEN e.x ELSE "#" \o ToString(o)

RECURSIVE Named(_, _)
Named(opts, es) ==
    [i \in DOMAIN es |-> IF IsSym(es[i]) THEN [es[i] EXCEPT !.x = SymName(opts, es[i])]
                         ELSE [es[i] EXCEPT !.subs = Named(opts, es[i].subs)]]

IsParam(e) == e.t = "val" \/ ~IsSym(e)
Params(es) == SelectSeq(es, IsParam)
Plain(es) == Params(es) = <<>>
PlainAlt(e) == \A i \in DOMAIN e.subs : Plain(e.subs[i].subs)

(* Whether a function with parameters of the types ts fits a pattern. A    *)
(* type is [k, subs], with the kinds "s" (text), "i" (integer), "b"        *)
(* (whether present), "n" (count, or index of branch), "o" (optional), "r" *)
(* (list), "a" (variant) and "t" (tuple, in the latter three).             *)
RECURSIVE Fits(_, _), FitsElem(_, _)
Fits(es, ts) ==
    LET ps == Params(es)
    IN Len(ps) = Len(ts) /\ (\A i \in DOMAIN ps : FitsElem(ps[i], ts[i]))
FitsElem(e, t) ==
    CASE e.t = "val" -> t.k \in { "s", "i", "b", "n" }
      [] e.t = "opt" ->
           \/ t.k = "o" /\ Fits(e.subs, t.subs[1].subs)
           \/ t.k = "b" /\ Plain(e.subs)
           \/ t.k \in { "r", "n" } /\ Len(Params(e.subs)) = 1 /\ Params(e.subs)[1].t = "rep"
                /\ FitsElem(Params(e.subs)[1], t)
      [] e.t = "rep" -> \/ t.k = "r" /\ Fits(e.subs, t.subs[1].subs)
                        \/ t.k = "n" /\ Plain(e.subs)
      [] e.t = "alt" -> \/ t.k = "a" /\ Len(t.subs) = Len(e.subs)
                             /\ (\A i \in DOMAIN e.subs : Fits(e.subs[i].subs, t.subs[i].subs))
                        \/ t.k = "n" /\ PlainAlt(e)

(* pat: [toks, bad (unreadable), deleg, badattr, fn (has function), types] *)
PatErrors(opts, pat) ==
    LET r == TLCEval(IF pat.bad THEN [ok |-> FALSE, es |-> <<>>] ELSE ParsePattern(pat.toks))
        syms == SymsOf(r.es)
        refs == { OptOf(opts, syms[i].x) : i \in { i \in DOMAIN syms : syms[i].t \in { "so", "lo" } } } \ { 0 }
    IN { c \in { "bad_pattern_syntax", "structural_ambiguity", "bad_option_ref", "bad_pattern_attr",
                 "pattern_func_mismatch" } :
           CASE c = "bad_pattern_syntax" ->
                  ~r.ok \/ (pat.deleg /\ \E i \in DOMAIN syms : syms[i].t = "val")
             [] c = "structural_ambiguity" -> r.ok /\ ~NoStructAmb(r.es)
             [] c = "bad_option_ref" -> \E i \in refs : opts[i].arg # "none" \/ opts[i].sc \/ opts[i].stop
             [] c = "bad_pattern_attr" -> pat.badattr
             [] c = "pattern_func_mismatch" -> r.ok /\ pat.fn /\ ~Fits(r.es, pat.types) }

(* Without patterns, it is as if there was one empty pattern. *)
NoPattern == [toks |-> <<>>, bad |-> FALSE, deleg |-> FALSE, badattr |-> FALSE, fn |-> FALSE, types |-> <<>>,
              compl |-> FALSE, ret |-> 0, sub |-> 0, id |-> 0]
Pats(S) == IF S.pats = <<>> THEN << NoPattern >> ELSE S.pats

FormErrors(S) ==
    UNION { OptErrors(S.opts, i) : i \in DOMAIN S.opts } \union
    UNION { PatErrors(S.opts, Pats(S)[i]) : i \in DOMAIN Pats(S) }

(* What is needed for processing: the automaton, and the patterns' elements. *)
Context(S) ==
    LET es == TLCEval([p \in DOMAIN Pats(S) |-> Named(S.opts, ParsePattern(Pats(S)[p].toks).es)])
    IN [ S |-> S, es |-> es,
         N |-> TLCEval(Nfa([p \in DOMAIN es |-> [es |-> es[p]]])),
         used |-> TLCEval(UNION { { SymsOf(es[p])[i].x : i \in DOMAIN SymsOf(es[p]) } : p \in DOMAIN es }) ]

AmbErrors(C) ==
    LET pairs == TLCEval(Pairs(C.N))
        pos == ~C.S.pamb /\ PosAmb(C.N, pairs)
        cross == ~C.S.xamb /\ CrossAmb(C.N, pairs)
        prefix == PrefixDeleg(C.N, pairs, Pats(C.S))
    IN (IF pos THEN { "positional_ambiguity" } ELSE {}) \union
       (IF cross THEN { "cross_pattern_ambiguity" } ELSE {}) \union
       (IF prefix THEN { "prefix_deleg_pattern" } ELSE {})
----------------------------------------------------------------------------
(* Reading the arguments. i is the argument at hand, off the place in a    *)
(* compound of short options (zero when at the beginning of an argument).  *)
(* st: [i, off, S, err, pm, stop, inv, errs, syms, res]                    *)

Begin(C, i, err) ==
    [i |-> i, off |-> 0, S |-> C.N.start, err |-> err, pm |-> FALSE, stop |-> FALSE,
     inv |-> <<>>, errs |-> <<>>, syms |-> <<>>, res |-> "", opt |-> 0]

CanDelegate(C, S) == \E q \in S : Pats(C.S)[q[1]].deleg

Error(st, code) == [st EXCEPT !.errs = Append(@, <<st.i, code>>), !.err = TRUE]
NextArg(st) == [st EXCEPT !.i = @ + 1, !.off = 0]
(* In a compound, go on with what follows. *)
Onward(st, arg) == IF st.off = 0 \/ st.off > Len(arg) THEN NextArg(st) ELSE st

(* Once the arguments no longer fit, matching is over. If they could have  *)
(* lead to delegation, the meaning of further options is unknown too.      *)
MatchOver(C, st, arg) ==
    IF CanDelegate(C, st.S) THEN [st EXCEPT !.res = "fail"]
    ELSE Onward([st EXCEPT !.pm = TRUE], arg)

Consume(C, st, x) == [st EXCEPT !.S = TLCEval(Step(C.N, @, x)), !.syms = Append(@, [x |-> x, i |-> st.i])]
CanConsume(C, st, x) == Step(C.N, st.S, x) # {}

Invoke(st, o, has, val) == [st EXCEPT !.inv = Append(@, [o |-> o, has |-> has, val |-> val, i |-> st.i])]

(* An option was recognized and has no argument. x is its symbol. *)
WithoutArg(C, st, o, x, arg) ==
    IF o # 0 /\ C.S.opts[o].sc THEN [st EXCEPT !.res = "short", !.opt = o]
    ELSE LET st_2 == IF o = 0 THEN st ELSE Invoke(st, o, FALSE, <<>>)
             st_3 == IF o # 0 /\ C.S.opts[o].stop THEN [st_2 EXCEPT !.stop = TRUE] ELSE st_2
         IN IF x \in C.used /\ ~st.pm THEN
                IF CanConsume(C, st_3, x) THEN Onward(Consume(C, st_3, x), arg)
                ELSE MatchOver(C, Error(st_3, "no_pattern_match"), arg)
            ELSE Onward(st_3, arg)

FindFrom(s, c, i) == LET is == { k \in i..Len(s) : s[k] = c }
                     IN IF is = {} THEN Len(s) + 1 ELSE CHOOSE k \in is : \A l \in is : k <= l

Known(C, form, o) == o # 0 \/ form \in C.used
SymOf(form, o) == IF o = 0 THEN form ELSE "#" \o ToString(o)
TakesArg(C, o) == o # 0 /\ C.S.opts[o].arg # "none"
NeedsArg(C, o) == o # 0 /\ C.S.opts[o].arg = "req"

LongOption(C, args, st) ==
    LET arg == args[st.i]
        eq == FindFrom(arg, "=", 3)
        form == Join(SubSeq(arg, 1, eq - 1))
        o == OptOf(C.S.opts, form)
        x == SymOf(form, o)
    IN IF ~Known(C, form, o) THEN MatchOver(C, Error(st, "bad_option"), arg)
       ELSE IF eq <= Len(arg) THEN
           IF TakesArg(C, o) THEN NextArg(Invoke(st, o, TRUE, SubSeq(arg, eq + 1, Len(arg))))
           ELSE NextArg(Error(st, "bad_option"))
       ELSE IF ~NeedsArg(C, o) THEN WithoutArg(C, st, o, x, arg)
       ELSE IF st.i = Len(args) THEN NextArg(Error(st, "bad_option"))
       ELSE [NextArg(Invoke(st, o, TRUE, args[st.i + 1])) EXCEPT !.i = @ + 1]

(* The option at place off of a compound. *)
ShortOption(C, args, st, off) ==
    LET arg == args[st.i]
        form == "-" \o arg[off]
        o == OptOf(C.S.opts, form)
        x == SymOf(form, o)
        next == [st EXCEPT !.off = off + 1]
        rest == SubSeq(arg, off + 1, Len(arg))
    IN IF ~Known(C, form, o) THEN MatchOver(C, Error([st EXCEPT !.off = Len(arg) + 1], "bad_option"), arg)
       ELSE IF ~TakesArg(C, o) THEN
           IF rest # <<>> /\ rest[1] = "-" THEN NextArg(Error(st, "bad_option"))
           ELSE WithoutArg(C, next, o, x, arg)
       ELSE IF rest # <<>> THEN NextArg(Invoke(st, o, TRUE, rest))
       ELSE IF ~NeedsArg(C, o) THEN WithoutArg(C, next, o, x, arg)
       ELSE IF st.i = Len(args) THEN NextArg(Error(st, "bad_option"))
       ELSE [NextArg(Invoke(st, o, TRUE, args[st.i + 1])) EXCEPT !.i = @ + 1]

Advance(C, args, st) ==
    LET won == IF st.pm THEN 0 ELSE Winner(C.N, st.S)
        atend == st.i > Len(args)
    IN IF st.off > 0 THEN ShortOption(C, args, st, st.off)
       ELSE IF won # 0 /\ Pats(C.S)[won].deleg THEN [st EXCEPT !.res = "deleg", !.opt = won]
       ELSE IF atend THEN
           IF won # 0 /\ ~st.err THEN [st EXCEPT !.res = "match", !.opt = won]
           ELSE IF won # 0 \/ st.pm THEN [st EXCEPT !.res = "fail"]
           ELSE [Error(st, "no_pattern_match") EXCEPT !.res = "fail"]
       ELSE LET arg == args[st.i] IN
           IF ~st.stop /\ Len(arg) >= 2 /\ arg[1] = "-" THEN
               IF arg[2] = "-" THEN LongOption(C, args, st) ELSE ShortOption(C, args, st, 2)
           ELSE IF st.pm THEN NextArg(st)
           ELSE LET kw == "=" \o Join(arg) IN
               IF ~st.stop /\ kw \in C.used /\ CanConsume(C, st, kw) THEN NextArg(Consume(C, st, kw))
               ELSE IF CanConsume(C, st, "<") THEN NextArg(Consume(C, st, "<"))
               ELSE MatchOver(C, Error(st, "no_pattern_match"), arg)

RECURSIVE Scan(_, _, _)
Scan(C, args, st) == IF st.res # "" THEN st ELSE Scan(C, args, TLCEval(Advance(C, args, st)))

----------------------------------------------------------------------------
(* Values. Integers are given in decimal form, and have 32 bits. *)
DigitVal == [c \in { "0", "1", "2", "3", "4", "5", "6", "7", "8", "9" } |->
                CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
                  [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] OTHER -> 9]
IsNeg(cs) == cs # <<>> /\ cs[1] = "-"
DigitsOf(cs) == IF cs # <<>> /\ cs[1] \in { "-", "+" } THEN Tail(cs) ELSE cs
RECURSIVE NoZeros(_)
NoZeros(ds) == IF Len(ds) > 1 /\ ds[1] = "0" THEN NoZeros(Tail(ds)) ELSE ds
Within(ds, neg) ==
    LET limit == <<2, 1, 4, 7, 4, 8, 3, 6, 4, IF neg THEN 8 ELSE 7>>
        differ == { i \in 1..10 : DigitVal[ds[i]] # limit[i] }
    IN \/ Len(ds) < 10
       \/ Len(ds) = 10 /\ (differ = {} \/ (LET i == CHOOSE i \in differ : \A j \in differ : i <= j
                                            IN DigitVal[ds[i]] < limit[i]))
IsInt(cs) ==
    LET ds == DigitsOf(cs)
    IN ds # <<>> /\ (\A i \in DOMAIN ds : ds[i] \in DOMAIN DigitVal) /\ Within(NoZeros(ds), IsNeg(cs))
IntText(cs) ==
    LET ds == NoZeros(DigitsOf(cs))
    IN (IF IsNeg(cs) /\ ds # <<"0">> THEN "-" ELSE "") \o Join(ds)
\* Of kind "j" are those that cannot have a plus sign
Readable(kind, cs) == (kind \in { "i", "j" } => IsInt(cs)) /\ (kind = "j" => cs[1] # "+")
Text(kind, cs) == IF kind \in { "i", "j" } THEN IntText(cs) ELSE Join(cs)
(* Conditions an option can put on its value. *)
Meets(cond, cs) ==
    CASE cond = "short" -> Len(cs) <= 2
      [] cond = "nonneg" -> ~IsNeg(cs) \/ IntText(cs) = "0"
      [] OTHER -> TRUE
GoodArg(o, cs) == Readable(o.kind, cs) /\ Meets(o.cond, cs)

(* Executing options: env: [log, vars, errs]. Options with kind "v" and    *)
(* the like assign to the variable of the option; others append to the log.*)
Do(o, n, text, env) ==
    IF o.assign THEN [env EXCEPT !.vars = [@ EXCEPT ![o.var] = text]]
    ELSE [env EXCEPT !.log = Append(@, "o" \o ToString(o.id) \o ":" \o text)]
RECURSIVE DoOptions(_, _, _)
DoOptions(opts, invs, env) ==
    IF invs = <<>> THEN env
    ELSE LET v == Head(invs)
             o == opts[v.o]
         IN DoOptions(opts, Tail(invs),
              IF ~o.act THEN (IF v.has THEN [env EXCEPT !.errs = Append(@, <<v.i, "bad_option_arg">>)] ELSE env)
              ELSE IF ~v.has THEN Do(o, v.o, o.dflt, env)
              ELSE IF GoodArg(o, v.val) THEN Do(o, v.o, Text(o.kind, v.val), env)
              ELSE [env EXCEPT !.errs = Append(@, <<v.i, "bad_option_arg">>)])

(* The kind of value wanted by each symbol of a pattern ("" for those that *)
(* are not value slots), for a function with parameters of the types ts.   *)
Blank(es) == [i \in 1..CountSyms(es) |-> ""]
RECURSIVE Kinds(_, _), KindsElem(_, _), KindsAlt(_, _)
Kinds(es, ts) ==
    IF es = <<>> THEN <<>>
    ELSE IF IsParam(Head(es)) THEN KindsElem(Head(es), Head(ts)) \o Kinds(Tail(es), Tail(ts))
    ELSE <<"">> \o Kinds(Tail(es), ts)
KindsElem(e, t) ==
    CASE e.t = "val" -> <<t.k>>
      [] t.k \in { "b", "n" } -> Blank(<<e>>)
      [] t.k = "a" -> KindsAlt(e.subs, t.subs)
      [] t.k = "r" /\ e.t = "opt" -> Kinds(e.subs, <<t>>)
      [] OTHER -> Kinds(e.subs, t.subs[1].subs)
KindsAlt(bs, ts) ==
    IF bs = <<>> THEN <<>> ELSE Kinds(Head(bs).subs, Head(ts).subs) \o KindsAlt(Tail(bs), Tail(ts))

(* What a function gets for the way r of matching the symbols syms. *)
ValueText(tok, ps, kinds, args, syms) ==
    IF tok[1] = "V" THEN "V" \o Text(kinds[ps[tok[2]]], args[syms[tok[2]].i]) ELSE tok[1] \o ToString(tok[2])
Structure(r, kinds, args, syms) == [k \in DOMAIN r.v |-> ValueText(r.v[k], r.ps, kinds, args, syms)]
BadSlots(r, kinds, args, syms) ==
    LET bad == { i \in DOMAIN syms : syms[i].x = "<" /\ ~Readable(kinds[r.ps[i]], args[syms[i].i]) }
        idx == SetToSortSeq(bad, LAMBDA x, y : x < y)
    IN [k \in DOMAIN idx |-> <<syms[idx[k]].i, "bad_pattern_arg">>]

----------------------------------------------------------------------------
(* A whole run: Cs are the specifications (the first one for the whole     *)
(* command line, the others for delegation), par what was found before     *)
(* delegation: [err, invs, errs]. The result is a set, as it is not said   *)
(* how an allowed positional ambiguity is resolved. A failed run reports   *)
(* its errors and does not execute any pattern, but executes options.      *)

FailStatus == 40
Run1(ret, status, env, errs) ==
    [ret |-> ret, status |-> status, log |-> env.log, vars |-> env.vars, errs |-> errs]

DoAll(Cs, invs, env) ==
    FoldLeft(LAMBDA e, v : DoOptions(Cs[v.c].S.opts, <<v>>, e), env, invs)

RECURSIVE Outcomes(_, _, _, _, _, _)
Outcomes(Cs, c, args, i, par, vars) ==
    LET C == Cs[c]
        st == TLCEval(Scan(C, args, Begin(C, i, par.err)))
        env0 == [log |-> <<>>, vars |-> vars, errs |-> <<>>]
        invs == par.invs \o [k \in DOMAIN st.inv |-> [o |-> st.inv[k].o, has |-> st.inv[k].has,
                                                      val |-> st.inv[k].val, i |-> st.inv[k].i, c |-> c]]
        env == DoAll(Cs, invs, env0)
        errs == par.errs \o st.errs
        pat == Pats(C.S)[st.opt]
        syms == st.syms
        w == [k \in DOMAIN syms |-> syms[k].x]
        kinds == TLCEval(Kinds(C.es[st.opt], pat.types))
    IN CASE st.res = "short" ->
              LET o == C.S.opts[st.opt]
              IN { Run1(TRUE, 0, IF o.act THEN Do(o, st.opt, o.dflt, env0) ELSE env0, <<>>) }
         [] st.res = "fail" -> { Run1(TRUE, FailStatus, env, errs \o env.errs) }
         [] st.res = "deleg" ->
              LET env1 == [env0 EXCEPT !.log = << "d" \o ToString(pat.id) >>]
              IN IF pat.sub = 0 THEN { Run1(TRUE, pat.ret, env1, <<>>) }
                 ELSE { [x EXCEPT !.log = env1.log \o @, !.ret = TRUE,
                                  !.status = IF x.ret THEN @ ELSE 77] :
                          x \in Outcomes(Cs, pat.sub, args, st.i, [err |-> st.err, invs |-> invs, errs |-> errs], vars) }
         [] st.res = "match" ->
              IF ~pat.fn THEN
                  { IF env.errs # <<>> THEN Run1(TRUE, FailStatus, env, env.errs)
                    ELSE Run1(pat.compl, 0, env, <<>>) }
              ELSE { LET bad == BadSlots(r, kinds, args, syms)
                         env2 == [env EXCEPT !.log = Append(@, "p" \o ToString(pat.id)) \o Structure(r, kinds, args, syms)]
                     IN IF env.errs # <<>> \/ bad # <<>> THEN Run1(TRUE, FailStatus, env, env.errs \o bad)
                        ELSE Run1(pat.compl \/ pat.ret # 0, pat.ret, env2, <<>>) :
                     r \in Parses(C.es[st.opt], w) }

NoParent == [err |-> FALSE, invs |-> <<>>, errs |-> <<>>]
Results(Cs, args, vars) == Outcomes(Cs, 1, args, 1, NoParent, vars)

(* Errors are reported in order of increasing argument index. *)
Ordered(errs) == \A i \in 1..(Len(errs) - 1) : errs[i][1] <= errs[i + 1][1]
SameErrors(a, b) ==
    Len(a) = Len(b) /\ (\A i \in DOMAIN a : Cardinality({ k \in DOMAIN a : a[k] = a[i] })
                                             = Cardinality({ k \in DOMAIN b : b[k] = a[i] }))

----------------------------------------------------------------------------
(* Whether a specification is accepted. *)
RECURSIVE SubsetReach(_, _, _)
SubsetReach(N, seen, new) ==
    IF new = {} THEN seen
    ELSE LET next == TLCEval(UNION { { Step(N, S, x) : x \in Symbols(N, S) } : S \in new } \ (seen \union new))
         IN SubsetReach(N, seen \union new, next)
MustRejectPrefix(C) ==
    \E S \in SubsetReach(C.N, {}, { C.N.start }) :
        LET p == Winner(C.N, S) IN p # 0 /\ Pats(C.S)[p].deleg /\ Symbols(C.N, S) # {}

(* The code reported for a specification ("" when it is accepted). *)
Verdict(S, code) ==
    LET form == FormErrors(S)
    IN IF form # {} THEN code \in form
       ELSE LET C == Context(S)
                amb == AmbErrors(C)
            IN IF code # "" THEN code \in amb
               ELSE amb \subseteq { "prefix_deleg_pattern" } /\ (amb = {} \/ (S.xamb /\ ~MustRejectPrefix(C)))
=============================================================================
