------------------------- MODULE SeqContainerTrace -------------------------
(* Every event names the operation (op), the container (o), the arguments, and
   what was observed afterwards: the contents of the container (c), whether an
   exception was thrown (threw), the capacity (cap), the number of element
   objects alive (live), and lifetime errors seen (bad).                     *)
EXTENDS SeqContainer, TraceBase

tvars == <<vars, l>>
TraceInit == Init /\ l = 1

O == Ev.o
Observed ==
    /\ Match("lifetime errors", Ev.bad, 0)
    /\ Match("contents", Ev.c, cont'[O])
    /\ Match("size", Ev.size, Len(cont'[O]))
    /\ Match("capacity sufficient", Ev.cap >= Max(res'[O], Len(cont'[O])), TRUE)
    /\ Match("element objects alive", Ev.live, Live')
    /\ Match("iterators that stay valid", Ev.kept,
             IF Ev.threw \/ Len(cont'[O]) > Ev.cap0 THEN <<>>
             ELSE CASE Ev.op \in {"push_back", "append", "append_each", "push_front"} -> cont[O]
                    [] Ev.op \in {"resize", "pop_back", "clear"} -> Take(cont[O], IF Len(cont[O]) < Len(cont'[O]) THEN Len(cont[O]) ELSE Len(cont'[O]))
                    [] Ev.op = "pop_front" -> Tail(cont[O])
                    [] Ev.op \in {"erase", "insert"} -> IF Ev.vec THEN Take(cont[O], Ev.i) ELSE <<>>
                    [] OTHER -> <<>>)
    \* where the iterator that was the end (or, for pop_back, that of the last element) is now
    /\ (~Ev.vec /\ ~Ev.threw /\ Ev.cap0 > 0 /\ Len(cont'[O]) <= Ev.cap0
         /\ Ev.op \in {"push_back", "pop_back", "push_front", "pop_front"}) =>
          Match("position of the former end", Ev.endpos, IF Ev.op = "push_back" THEN Len(cont[O]) ELSE Len(cont'[O]))
    /\ Ev.op \in {"pop_back", "pop_front", "clear"} => Match("capacity unchanged", Ev.cap, Ev.cap0)
    /\ (Ev.vec /\ Ev.op \notin {"shrink", "construct", "move_construct", "move_assign"}) =>
          Match("capacity not reduced", Ev.cap >= Ev.cap0, TRUE)
    /\ (Ev.vec /\ Ev.op \in {"reserve", "reserve_extra"} /\ res'[O] <= Ev.cap0) => Match("no reallocation", Ev.cap, Ev.cap0)
    /\ (Ev.vec /\ Ev.op = "shrink" /\ ~Ev.threw) => Match("shrunk", Ev.cap, IF Ev.owned THEN Len(cont'[O]) ELSE Ev.cap0)
    /\ Ev.threw => Match("exception without cause", Ev.armed, TRUE)

Modify ==
    CASE Ev.op = "push_back" -> PushBack(O, Ev.v, Ev.threw) /\ Match("returned reference", Ev.threw \/ Ev.r = Ev.v, TRUE)
      [] Ev.op = "push_front" -> PushFront(O, Ev.v, Ev.threw) /\ Match("returned reference", Ev.threw \/ Ev.r = Ev.v, TRUE)
      [] Ev.op = "pop_back" -> PopBack(O)
      [] Ev.op = "pop_front" -> PopFront(O)
      [] Ev.op = "erase" -> Erase(O, Ev.i, Ev.j) /\ Match("returned position", Ev.r, Ev.i)
      [] Ev.op = "insert" -> Insert(O, Ev.i, Ev.v, Ev.threw) /\ Match("returned position", Ev.threw \/ Ev.r = Ev.i, TRUE)
      [] Ev.op = "clear" -> Clear(O)
      [] Ev.op = "resize" -> Resize(O, Ev.n, Ev.v, Ev.threw)
      [] Ev.op = "append" -> AppendAll(O, Ev.s, Ev.threw)
      [] Ev.op = "append_each" -> AppendEach(O, Ev.s, IF Ev.threw THEN Len(Ev.c) - Len(cont[O]) ELSE Len(Ev.s))
      [] Ev.op = "assign" -> AssignAll(O, Ev.s, Ev.threw)
      [] Ev.op = "assign_each" -> AssignEach(O, Ev.s, IF Ev.threw THEN Len(Ev.c) ELSE Len(Ev.s))
      [] Ev.op = "construct" -> Construct(O, Ev.s, Ev.threw)
      [] Ev.op = "copy_construct" -> Construct(O, cont[Ev.p], Ev.threw)
      [] Ev.op = "copy_assign" -> CopyAssign(O, Ev.p, Ev.threw)
      [] Ev.op = "move_construct" -> MoveFrom(O, Ev.p)
      [] Ev.op = "move_assign" -> MoveFrom(O, Ev.p)
      [] Ev.op = "swap" -> Swap(O, Ev.p)
      [] Ev.op = "reserve" -> Reserve(O, Ev.n, Ev.threw)
      [] Ev.op = "reserve_extra" -> Reserve(O, Len(cont[O]) + Ev.n, Ev.threw)
      [] Ev.op = "shrink" -> Shrink(O, Ev.threw)

Elem(s, i) == s[i + 1]
TraceNext ==
    \/ IsEvent("reset") /\ cont' = [o \in Objs |-> <<>>] /\ res' = [o \in Objs |-> 0] /\ vals' = {}
    \/ IsEvent("op") /\ Modify /\ Observed
    \/ /\ IsEvent("look") /\ UNCHANGED vars
       /\ LET s == cont[O] t == cont[Ev.p] IN
          /\ Match("size", Ev.size, Len(s))
          /\ Match("empty", Ev.empty, s = <<>>)
          /\ Match("reverse iteration", Ev.rev, Reverse(s))
          /\ Match("indexing", Ev.idx, s)
          /\ Match("iterator arithmetic", Ev.ia, s)
          /\ Match("iterator distances", Ev.dist, Len(s))
          /\ s # <<>> => Match("ends", Ev.ends, <<Head(s), s[Len(s)]>>)
          /\ Match("at() rejects exactly what is out of range", Ev.at, [k \in 1..Len(Ev.at) |-> k <= Len(s)])
          /\ Match("comparisons", Ev.cmp, <<s = t, s # t, Less(s, t), Less(t, s), ~Less(t, s), ~Less(s, t)>>)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
