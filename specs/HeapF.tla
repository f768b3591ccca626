-------------------------------- MODULE HeapF --------------------------------
(* Priority queue (minheap.h).  The state is the multiset held, as the array   *)
(* the heap keeps it in (c, reported after each call): positions matter only   *)
(* for removal at a position.  ty = 2 orders the other way round.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Vals, Types, Max
Init == {<<>>, <<2, 1>>, <<1, 3, 2>>, <<3, 3, 2, 1, 1>>}
Cfgs == { c \in { [ty |-> t, mx |-> m, init |-> q] : t \in Types, m \in Max, q \in Init } : Len(c.init) <= c.mx }
InitState(c) == [ty |-> c.ty, mx |-> c.mx, c |-> c.init, first |-> TRUE]
Mem(q) == { q[i] : i \in 1..Len(q) }
Count(q, x) == Cardinality({ i \in 1..Len(q) : q[i] = x })
Perm(p, q) == Len(p) = Len(q) /\ \A x \in Mem(p) \cup Mem(q) : Count(p, x) = Count(q, x)
Lt(s, x, y) == IF s.ty = 2 THEN x > y ELSE x < y
Without(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
MinPos(s) == CHOOSE i \in 1..Len(s.c) : \A j \in 1..Len(s.c) : ~Lt(s, s.c[j], s.c[i])
Want(s, e) ==      \* a multiset, as a sequence
  CASE e.op = "ins" -> IF Len(s.c) >= s.mx THEN s.c ELSE Append(s.c, e.x)
    [] e.op = "min" -> IF s.c = <<>> THEN s.c ELSE Without(s.c, MinPos(s))
    [] e.op = "rem" -> IF e.x < 0 \/ e.x >= Len(s.c) THEN s.c ELSE Without(s.c, e.x + 1)
\* "bulk": a heap of its own: the numbers 0..n-1 in the order (i*a) % n (a, n coprime), the first k of them
\* given to the constructor, the others inserted; then everything is taken out again.
Rising(n) == IF n = 0 THEN <<>> ELSE << <<0, n>> >>
Falling(n) == IF n = 0 THEN <<>> ELSE << <<n - 1, n>> >>
After(s, e) == IF e.op = "bulk" THEN s ELSE [s EXCEPT !.c = IF "c" \in DOMAIN e THEN e.c ELSE Want(s, e), !.first = FALSE]
Ok(s, e) == IF e.op = "bulk" THEN e.r = e.n /\ e.runs = (IF s.ty = 2 THEN Falling(e.n) ELSE Rising(e.n)) ELSE
  /\ IF e.op = "rem" /\ s.first /\ e.r = 1     \* order inside the initial array is not known yet
     THEN Perm(Append(e.c, e.v), s.c) ELSE Perm(e.c, Want(s, e))
  /\ CASE e.op = "ins" -> e.r = (IF Len(s.c) >= s.mx THEN 0 ELSE 1)
       [] e.op = "min" -> IF s.c = <<>> THEN e.r = 0 ELSE e.r = 1 /\ e.v = s.c[MinPos(s)]
       [] e.op = "rem" -> IF e.x < 0 \/ e.x >= Len(s.c) THEN e.r = 0
                          ELSE e.r = 1 /\ (s.first \/ e.v = s.c[e.x + 1])
Events(s) == { [op |-> "ins", x |-> x] : x \in Vals } \cup { [op |-> "min", x |-> 0] } \cup { [op |-> "rem", x |-> x] : x \in -1..(Len(s.c)) }
Srt(q) == SortSeq(q, <)
Abs(s) == [s EXCEPT !.c = Srt(@)]
Good(s) == Len(s.c) <= s.mx
=============================================================================
