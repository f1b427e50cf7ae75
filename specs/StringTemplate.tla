-------------------------- MODULE StringTemplate --------------------------
(* String templates: text with references to parameters, `@{name}` or `@c`, and
   `@@` for `@`.  A template is a sequence of items: text and references.      *)
EXTENDS Integers, Sequences, FiniteSets

At == 64
Open == 123
Close == 125

Lit(s) == [k |-> "text", s |-> s]
Ref(n) == [k |-> "ref", s |-> n]

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

\* What the text means, given the names of the parameters. A reference that is not
\* terminated, or is to no parameter, is an error, and stands for itself if one goes on after that.
RECURSIVE ParseFrom(_, _, _)
ParseFrom(t, k, names) ==
    IF k > Len(t) THEN [items |-> <<>>, errs |-> <<>>]
    ELSE LET Then(item, next, errs) == LET r == ParseFrom(t, next, names) IN [items |-> <<item>> \o r.items, errs |-> errs \o r.errs]
             RefTo(n, next) == IF n \in names THEN Then(Ref(n), next, <<>>) ELSE Then(Lit(SubSeq(t, k, next - 1)), next, <<"ref">>)
             closes == {x \in k + 2..Len(t) : t[x] = Close}
         IN IF t[k] # At THEN Then(Lit(<<t[k]>>), k + 1, <<>>)
            ELSE IF k = Len(t) THEN Then(Lit(<<At>>), k + 1, <<"syntax">>)
            ELSE IF t[k + 1] = At THEN Then(Lit(<<At>>), k + 2, <<>>)
            ELSE IF t[k + 1] # Open THEN RefTo(<<t[k + 1]>>, k + 2)
            ELSE IF closes = {} THEN Then(Lit(<<At, Open>>), k + 2, <<"syntax">>)
            ELSE RefTo(SubSeq(t, k + 2, MinOf(closes) - 1), MinOf(closes) + 1)
Parse(t, names) == ParseFrom(t, 1, names)

RECURSIVE Expand(_, _)
Expand(items, value) == IF items = <<>> THEN <<>>
    ELSE (IF Head(items).k = "text" THEN Head(items).s ELSE value[Head(items).s]) \o Expand(Tail(items), value)

RefersTo(items, n) == \E k \in 1..Len(items) : items[k].k = "ref" /\ items[k].s = n

Digit(d) == IF d < 10 THEN 48 + d ELSE 87 + d
RECURSIVE Digits(_, _)
Digits(v, base) == IF v < base THEN <<Digit(v)>> ELSE Append(Digits(v \div base, base), Digit(v % base))
Number(v, base) == IF v < 0 THEN <<45>> \o Digits(0 - v, base) ELSE Digits(v, base)

\* Separators between groups of three
RECURSIVE Groups(_, _)
Groups(ds, sep) == IF Len(ds) <= 3 THEN ds ELSE Groups(SubSeq(ds, 1, Len(ds) - 3), sep) \o <<sep>> \o SubSeq(ds, Len(ds) - 2, Len(ds))
Grouped(s, sep) == IF sep = 0 THEN s ELSE IF s[1] = 45 THEN <<45>> \o Groups(Tail(s), sep) ELSE Groups(s, sep)
Odd(v) == v % 2 = 1

Padded(s, width, fill, left) ==
    LET p == [k \in 1..(IF width > Len(s) THEN width - Len(s) ELSE 0) |-> fill] IN IF left THEN s \o p ELSE p \o s
=============================================================================
