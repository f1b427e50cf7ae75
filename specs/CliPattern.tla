----------------------------- MODULE CliPattern -----------------------------
(***************************************************************************)
(* Patterns of a command line specification: how a pattern is written,     *)
(* what it matches, how matched arguments are handed to the pattern's      *)
(* function, and when patterns are ambiguous.                              *)
(*                                                                         *)
(* A pattern is a sequence of elements. An element is a symbol (keyword,   *)
(* short option, long option or value slot), an optional sub-pattern, a    *)
(* repeated sub-pattern, or a choice between branches.                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Sym(t, x) == [t |-> t, x |-> x, subs |-> <<>>]
Opt(es) == [t |-> "opt", x |-> "", subs |-> es]
Rep(es) == [t |-> "rep", x |-> "", subs |-> es]
Branch(es) == [t |-> "seq", x |-> "", subs |-> es]
Alt(bs) == [t |-> "alt", x |-> "", subs |-> bs]

SymTypes == { "kw", "so", "lo", "val" }
IsSym(e) == e.t \in SymTypes

----------------------------------------------------------------------------
(* Reading a pattern, given as a sequence of tokens [k, x, sp]; sp tells   *)
(* whether the token is preceded by a space. Parentheses only group. A     *)
(* result is [ok, es, rest], or [ok, bs, rest] with the branches of a      *)
(* choice.                                                                 *)

Failed == [ok |-> FALSE, es |-> <<>>, bs |-> <<>>, rest |-> <<>>]
StartsElem(ts) == ts # <<>> /\ Head(ts).k \in (SymTypes \union { "[", "(" })
At(ts, k) == ts # <<>> /\ Head(ts).k = k

RECURSIVE PAlts(_), PMoreAlts(_, _), PJuxt(_), PMoreJuxt(_, _), PRep(_), PMoreRep(_, _), PElem(_)

(* One or more branches. *)
PAlts(ts) ==
    LET r == PJuxt(ts) IN IF r.ok THEN PMoreAlts(<<r.es>>, r.rest) ELSE Failed
PMoreAlts(bs, ts) ==
    IF At(ts, "|") THEN
        LET r == PJuxt(Tail(ts)) IN IF r.ok THEN PMoreAlts(Append(bs, r.es), r.rest) ELSE Failed
    ELSE [ok |-> TRUE, es |-> <<>>, bs |-> bs, rest |-> ts]

PJuxt(ts) ==
    LET r == PRep(ts) IN IF r.ok THEN PMoreJuxt(r.es, r.rest) ELSE Failed
PMoreJuxt(es, ts) ==
    IF StartsElem(ts) THEN
        IF ~Head(ts).sp THEN Failed
        ELSE LET r == PRep(ts) IN IF r.ok THEN PMoreJuxt(es \o r.es, r.rest) ELSE Failed
    ELSE [ok |-> TRUE, es |-> es, bs |-> <<>>, rest |-> ts]

PRep(ts) ==
    LET r == PElem(ts) IN IF r.ok THEN PMoreRep(r.es, r.rest) ELSE Failed
PMoreRep(es, ts) ==
    IF At(ts, "...") THEN PMoreRep(<<Rep(es)>>, Tail(ts))
    ELSE [ok |-> TRUE, es |-> es, bs |-> <<>>, rest |-> ts]

(* A choice directly inside a choice is part of that choice. *)
IsSoleAlt(es) == Len(es) = 1 /\ es[1].t = "alt"
RECURSIVE Branches(_)
Branches(bs) ==
    IF bs = <<>> THEN <<>>
    ELSE (IF IsSoleAlt(Head(bs)) THEN Head(bs)[1].subs ELSE <<Branch(Head(bs))>>) \o Branches(Tail(bs))
Grouped(bs) == IF Len(bs) = 1 THEN bs[1] ELSE <<Alt(Branches(bs))>>

PElem(ts) ==
    IF ts = <<>> THEN Failed
    ELSE IF Head(ts).k \in SymTypes THEN
        [ok |-> TRUE, es |-> <<Sym(Head(ts).k, Head(ts).x)>>, bs |-> <<>>, rest |-> Tail(ts)]
    ELSE IF Head(ts).k \in { "[", "(" } THEN
        LET r == PAlts(Tail(ts))
            close == IF Head(ts).k = "[" THEN "]" ELSE ")"
        IN IF r.ok /\ At(r.rest, close) THEN
               [ok |-> TRUE, bs |-> <<>>, rest |-> Tail(r.rest),
                es |-> IF close = "]" THEN <<Opt(Grouped(r.bs))>> ELSE Grouped(r.bs)]
           ELSE Failed
    ELSE Failed

(* A choice must be in parentheses or square brackets. *)
ParsePattern(ts) ==
    IF ts = <<>> THEN [ok |-> TRUE, es |-> <<>>]
    ELSE LET r == PAlts(ts)
         IN IF r.ok /\ r.rest = <<>> /\ Len(r.bs) = 1 THEN [ok |-> TRUE, es |-> r.bs[1]]
            ELSE [ok |-> FALSE, es |-> <<>>]

(* The elements with the symbols renamed. *)
RECURSIVE Relabel(_, _)
Relabel(es, f) ==
    [i \in DOMAIN es |-> IF IsSym(es[i]) THEN [es[i] EXCEPT !.x = f[es[i].x]]
                         ELSE [es[i] EXCEPT !.subs = Relabel(es[i].subs, f)]]

RECURSIVE SymsOf(_)
SymsOf(es) ==
    IF es = <<>> THEN <<>>
    ELSE (IF IsSym(Head(es)) THEN <<Head(es)>> ELSE SymsOf(Head(es).subs)) \o SymsOf(Tail(es))

----------------------------------------------------------------------------
(* Structural ambiguity: when the structure to be handed to the function   *)
(* is not determined although it is known which symbol of the pattern each *)
(* argument goes to. Given by the rules of the documentation.              *)

RECURSIVE Nullable(_), NullableSeq(_), Repeating(_), RepeatingSeq(_), NoStructAmb(_)
Nullable(e) ==
    CASE e.t = "opt" -> TRUE
      [] e.t = "rep" -> NullableSeq(e.subs)
      [] e.t = "alt" -> \E i \in DOMAIN e.subs : NullableSeq(e.subs[i].subs)
      [] OTHER -> FALSE
NullableSeq(es) == \A i \in DOMAIN es : Nullable(es[i])

(* Some nonempty sequence of symbols matches together with all its         *)
(* repetitions.                                                            *)
Repeating(e) ==
    CASE e.t = "opt" -> RepeatingSeq(e.subs)
      [] e.t = "rep" -> TRUE
      [] e.t = "alt" -> \E i \in DOMAIN e.subs : RepeatingSeq(e.subs[i].subs)
      [] OTHER -> FALSE
RepeatingSeq(es) ==
    \E i \in DOMAIN es : Repeating(es[i]) /\ (\A j \in DOMAIN es \ {i} : Nullable(es[j]))

NoStructAmb(es) ==
    \A i \in DOMAIN es :
        LET e == es[i] IN
        CASE e.t = "opt" -> ~NullableSeq(e.subs) /\ NoStructAmb(e.subs)
          [] e.t = "rep" -> ~NullableSeq(e.subs) /\ ~RepeatingSeq(e.subs) /\ NoStructAmb(e.subs)
          [] e.t = "alt" -> /\ Cardinality({ k \in DOMAIN e.subs : NullableSeq(e.subs[k].subs) }) <= 1
                            /\ (\A k \in DOMAIN e.subs : NoStructAmb(e.subs[k].subs))
          [] OTHER -> TRUE

----------------------------------------------------------------------------
(* Which arguments a pattern matches, and what the function gets: all ways *)
(* of matching the elements es against a sequence of symbols w from index  *)
(* i on. ps are the positions of the pattern's symbols used, in order; v   *)
(* is the structure in prefix form: <<"V", i>> a value slot taking the     *)
(* i'th symbol, <<"O", 0 or 1>> an optional part, <<"R", n>> a part        *)
(* repeated n times, <<"A", k>> the choice of branch k (from zero).        *)

RECURSIVE CountSyms(_)
CountSyms(es) == IF es = <<>> THEN 0
                 ELSE (IF IsSym(Head(es)) THEN 1 ELSE CountSyms(Head(es).subs)) + CountSyms(Tail(es))

RECURSIVE ParsesSeq(_, _, _, _), ParsesElem(_, _, _, _), ParsesRep(_, _, _, _, _), ParsesAlt(_, _, _, _, _)
ParsesSeq(es, base, w, i) ==
    IF es = <<>> THEN { [j |-> i, ps |-> <<>>, v |-> <<>>] }
    ELSE LET firsts == ParsesElem(Head(es), base, w, i)
             base_2 == base + CountSyms(<<Head(es)>>)
         IN UNION { { [j |-> r.j, ps |-> f.ps \o r.ps, v |-> f.v \o r.v] :
                        r \in ParsesSeq(Tail(es), base_2, w, f.j) } : f \in firsts }
ParsesElem(e, base, w, i) ==
    CASE IsSym(e) ->
           IF i <= Len(w) /\ w[i] = e.x THEN
               { [j |-> i + 1, ps |-> <<base + 1>>, v |-> IF e.t = "val" THEN << <<"V", i>> >> ELSE <<>>] }
           ELSE {}
      [] e.t = "opt" ->
           { [j |-> i, ps |-> <<>>, v |-> << <<"O", 0>> >>] } \union
           { [j |-> r.j, ps |-> r.ps, v |-> << <<"O", 1>> >> \o r.v] : r \in ParsesSeq(e.subs, base, w, i) }
      [] e.t = "rep" ->
           { [j |-> r.j, ps |-> r.ps, v |-> << <<"R", r.n>> >> \o r.v] :
               r \in ParsesRep(e.subs, base, w, i, 1) }
      [] e.t = "alt" -> ParsesAlt(e.subs, 1, base, w, i)
(* Repetitions of a sub-pattern that matches nothing could be any number;  *)
(* one and two of them are enough to see that it is ambiguous.             *)
ParsesRep(es, base, w, i, n) ==
    LET firsts == ParsesSeq(es, base, w, i)
        empty == { f \in firsts : f.j = i }
        some == { f \in firsts : f.j > i }
    IN { [j |-> f.j, ps |-> f.ps, v |-> f.v, n |-> 1] : f \in some } \union
       UNION { { [j |-> r.j, ps |-> f.ps \o r.ps, v |-> f.v \o r.v, n |-> r.n + 1] :
                   r \in ParsesRep(es, base, w, f.j, n + 1) } : f \in some } \union
       (IF n > 1 THEN {}
        ELSE { [j |-> i, ps |-> <<>>, v |-> f.v, n |-> 1] : f \in empty } \union
             { [j |-> i, ps |-> <<>>, v |-> f.v \o f.v, n |-> 2] : f \in empty })
ParsesAlt(bs, k, base, w, i) ==
    IF k > Len(bs) THEN {}
    ELSE { [j |-> r.j, ps |-> r.ps, v |-> << <<"A", k - 1>> >> \o r.v] : r \in ParsesSeq(bs[k].subs, base, w, i) }
         \union ParsesAlt(bs, k + 1, base + CountSyms(bs[k].subs), w, i)

Parses(es, w) == { r \in ParsesSeq(es, 0, w, 1) : r.j = Len(w) + 1 }

----------------------------------------------------------------------------
(* The positions of a pattern as a nondeterministic automaton. A state is  *)
(* the position of the symbol to come next, or the position after the last *)
(* symbol for the end of the pattern.                                      *)

RECURSIVE GSeq(_, _), GElem(_, _), GAlt(_, _)
Cat(a, b) == [null |-> a.null /\ b.null,
              first |-> a.first \union (IF a.null THEN b.first ELSE {}),
              last |-> b.last \union (IF b.null THEN a.last ELSE {}),
              follow |-> a.follow \union b.follow \union (a.last \X b.first)]
Or(a, b) == [null |-> a.null \/ b.null, first |-> a.first \union b.first, last |-> a.last \union b.last,
             follow |-> a.follow \union b.follow]
Empty == [null |-> TRUE, first |-> {}, last |-> {}, follow |-> {}]
GSeq(es, base) ==
    IF es = <<>> THEN Empty
    ELSE Cat(GElem(Head(es), base), GSeq(Tail(es), base + CountSyms(<<Head(es)>>)))
GElem(e, base) ==
    CASE IsSym(e) -> [null |-> FALSE, first |-> { base + 1 }, last |-> { base + 1 }, follow |-> {}]
      [] e.t = "opt" -> [GSeq(e.subs, base) EXCEPT !.null = TRUE]
      [] e.t = "rep" -> LET g == GSeq(e.subs, base) IN [g EXCEPT !.follow = @ \union (g.last \X g.first)]
      [] e.t = "alt" -> GAlt(e.subs, base)
GAlt(bs, base) ==
    LET g == GSeq(Head(bs).subs, base)
    IN IF Len(bs) = 1 THEN g ELSE Or(g, GAlt(Tail(bs), base + CountSyms(Head(bs).subs)))

(* The automaton of all patterns: pats is a sequence of [es, deleg]. A     *)
(* state is <<pattern, position>>.                                         *)
Nfa(pats) ==
    LET gs == TLCEval([p \in DOMAIN pats |-> GSeq(pats[p].es, 0)])
        syms == TLCEval([p \in DOMAIN pats |-> SymsOf(pats[p].es)])
        states == UNION { { <<p, i>> : i \in 1..(Len(syms[p]) + 1) } : p \in DOMAIN pats }
        end(p) == <<p, Len(syms[p]) + 1>>
    IN [ start |-> TLCEval(UNION { { <<p, i>> : i \in gs[p].first }
                                     \union (IF gs[p].null THEN { end(p) } ELSE {}) : p \in DOMAIN pats }),
         sym |-> TLCEval([q \in states |-> IF q[2] > Len(syms[q[1]]) THEN "" ELSE syms[q[1]][q[2]].x]),
         follow |-> TLCEval([q \in states |->
                      IF q[2] > Len(syms[q[1]]) THEN {}
                      ELSE { <<q[1], f[2]>> : f \in { f \in gs[q[1]].follow : f[1] = q[2] } }
                             \union (IF q[2] \in gs[q[1]].last THEN { end(q[1]) } ELSE {})]),
         end |-> TLCEval([p \in DOMAIN pats |-> end(p)]) ]

Step(N, S, x) == UNION { N.follow[q] : q \in { q \in S : N.sym[q] = x } }
Symbols(N, S) == { N.sym[q] : q \in S } \ { "" }
Winners(N, S) == { p \in DOMAIN N.end : N.end[p] \in S }
Winner(N, S) == LET ws == Winners(N, S) IN IF ws = {} THEN 0 ELSE CHOOSE p \in ws : \A r \in ws : p <= r

RECURSIVE Run(_, _, _, _)
Run(N, S, w, i) == IF i > Len(w) THEN S ELSE Run(N, Step(N, S, w[i]), w, i + 1)

(* Pairs of states that some sequence of symbols leads to. *)
PairStep(N, P) ==
    UNION { IF N.sym[pr[1]] # "" /\ N.sym[pr[1]] = N.sym[pr[2]] THEN N.follow[pr[1]] \X N.follow[pr[2]] ELSE {} :
            pr \in P }
RECURSIVE PairReach(_, _, _)
PairReach(N, seen, new) ==
    IF new = {} THEN seen
    ELSE LET next == TLCEval(PairStep(N, new) \ (seen \union new)) IN PairReach(N, seen \union new, next)
Pairs(N) == PairReach(N, {}, TLCEval(N.start \X N.start))

(* Two ways through one pattern for one sequence of symbols. *)
PosAmb(N, pairs) ==
    \E pr \in pairs : /\ pr[1] # pr[2]
                      /\ pr[1][1] = pr[2][1]
                      /\ N.sym[pr[1]] # "" /\ N.sym[pr[1]] = N.sym[pr[2]]
                      /\ N.follow[pr[1]] \intersect N.follow[pr[2]] # {}
(* Two patterns match one sequence of symbols. *)
CrossAmb(N, pairs) ==
    \E p, r \in DOMAIN N.end : p < r /\ << N.end[p], N.end[r] >> \in pairs
(* A match of a delegating pattern is a proper prefix of another match.    *)
(* Whether this is reported when the delegating pattern would not be       *)
(* chosen at that point (an ambiguity was allowed) is not specified.       *)
PrefixDeleg(N, pairs, pats) ==
    \E pr \in pairs : \E p \in DOMAIN pats : pats[p].deleg /\ pr[1] = N.end[p] /\ N.sym[pr[2]] # ""
=============================================================================
