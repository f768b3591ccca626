-------------------------------- MODULE VectF --------------------------------
(* Growable vectors (fast/vect.h) as mathematical sequences: two vectors a, b. *)
(* Every event reports both contents after the call and whether the accessors  *)
(* (first, last, element, traversals, length, capacity) agree with them.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS Vals, Types, Caps, MaxN
Cfgs == { [ty |-> t, ca |-> a, cb |-> b, seed |-> 1] : t \in Types, a \in Caps, b \in Caps }
InitState(c) == [a |-> <<>>, b |-> <<>>]
Front1(q) == SubSeq(q, 1, Len(q) - 1)
Count(q, x) == Cardinality({ i \in 1..Len(q) : q[i] = x })
Elems(q) == { q[i] : i \in 1..Len(q) }
Perm(p, q) == Len(p) = Len(q) /\ IF Cardinality(Elems(q)) = Len(q) THEN Elems(p) = Elems(q) ELSE \A x \in Elems(q) : Count(p, x) = Count(q, x)
Sub(p, q) == IF Cardinality(Elems(q)) = Len(q) THEN Cardinality(Elems(p)) = Len(p) /\ Elems(p) \subseteq Elems(q) ELSE \A x \in Elems(p) : Count(p, x) <= Count(q, x)
Sorted(q) == \A i \in 1..(Len(q) - 1) : q[i] <= q[i + 1]
Det(s, e) ==
  LET a == s.a b == s.b IN
  CASE e.op = "pushb" -> [s EXCEPT !.a = Append(a, e.x)]
    [] e.op = "pushf" -> [s EXCEPT !.a = <<e.x>> \o a]
    [] e.op = "pushn" -> [s EXCEPT !.a = a \o [i \in 1..e.n |-> i]]
    [] e.op = "dupf" -> [s EXCEPT !.a = <<a[Len(a)]>> \o a]
    [] e.op = "dupb" -> [s EXCEPT !.a = Append(a, a[1])]
    [] e.op \in {"popb", "pop"} -> [s EXCEPT !.a = Front1(a)]
    [] e.op = "popf" -> [s EXCEPT !.a = Tail(a)]
    [] e.op = "set" -> [s EXCEPT !.a[e.i + 1] = e.x]
    [] e.op = "reset" -> [s EXCEPT !.a = <<>>]
    [] e.op \in {"copy", "from"} -> [s EXCEPT !.b = a]
    [] e.op = "appendv" -> [s EXCEPT !.a = a \o b]
    [] e.op = "appself" -> [s EXCEPT !.a = a \o a]
    [] e.op = "swap" -> [a |-> b, b |-> a]
    [] e.op = "lit" -> [s EXCEPT !.a = <<7>> \o a \o <<7>>]
    [] e.op = "sort" -> [s EXCEPT !.a = SortSeq(a, <)]
    [] e.op = "sample" -> [s EXCEPT !.b = IF e.k < Len(a) THEN SubSeq(a, 1, e.k) ELSE b]
    [] OTHER -> s
Free(e) == e.op \in {"shuffle", "sample", "sort"}
After(s, e) == IF Free(e) /\ "a" \in DOMAIN e THEN [a |-> e.a, b |-> e.b] ELSE Det(s, e)
Ret(s, e) ==
  CASE e.op = "popb" -> e.r = s.a[Len(s.a)]
    [] e.op = "popf" -> e.r = s.a[1]
    [] e.op \in {"reserve", "ensure"} -> e.r = 1
    [] e.op = "pick" -> e.r \in Elems(s.a)
    [] e.op = "sample" -> e.r \in {0, 1}
    [] OTHER -> e.r = 0
Ok(s, e) ==
  /\ e.oka = 1 /\ e.okb = 1
  /\ Ret(s, e)
  /\ CASE e.op = "shuffle" -> Perm(e.a, s.a) /\ e.b = s.b
       [] e.op = "sort" -> Sorted(e.a) /\ Perm(e.a, s.a) /\ e.b = s.b
       [] e.op = "sample" -> /\ e.a = s.a
                             /\ e.k < Len(s.a) => e.r = 1
                             /\ e.k > Len(s.a) => e.r = 0
                             /\ IF e.r = 1 THEN Len(e.b) = e.k /\ Sub(e.b, s.a) ELSE e.b = s.b
       [] OTHER -> LET t == Det(s, e) IN e.a = t.a /\ e.b = t.b
Ops(s) ==
  {[op |-> "pushb", x |-> x] : x \in Vals} \cup {[op |-> "pushf", x |-> x] : x \in Vals}
  \cup {[op |-> o] : o \in {"reset", "copy", "copyself", "appendv", "appself", "swap", "sort", "shuffle", "from", "lit"}}
  \cup {[op |-> "reserve", n |-> n] : n \in {0, 1, 2, 5}} \cup {[op |-> "ensure", n |-> n] : n \in {0, 1, 3}}
  \cup {[op |-> "sample", k |-> k] : k \in {0, 1, 2, 3}}
  \cup (IF s.a = <<>> THEN {} ELSE {[op |-> o] : o \in {"popb", "popf", "pop", "pick", "dupf", "dupb"}} \cup {[op |-> "set", i |-> 0, x |-> x] : x \in Vals})
Events(s) == { o \in Ops(s) : Len(Det(s, o).a) <= MaxN }
Abs(s) == s
Good(s) == Len(s.a) <= MaxN
=============================================================================
