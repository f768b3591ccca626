-------------------------------- MODULE LongT --------------------------------
(* Sets of any size held by the hash tables, filters, pools and arenas: operations on whole     *)
(* intervals of keys.  fill a..b puts every key of it that is not there; drop     *)
(* takes away every key of it that is; look asks for each; half removes the keys  *)
(* of one parity by predicate; each walks the table in one of its ways and        *)
(* reports the keys met as maximal runs <<first, length>>.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Kinds, Edges
\* kind: "hash" (the policy-based table), "fast" (integer keys), "count", "std", "scale" (Bloom filters)
Cfgs == { [kind |-> k, x |-> 1, y |-> 1, seed |-> 1] : k \in Kinds }
\* "pool" (x: its limit, 0 none), "mem" (on memory for at least x blocks), "arena": a key stands for a block filled with its own contents
InitState(c) == [kind |-> c.kind, m |-> {}, cap |-> IF c.kind \in {"pool", "mem"} THEN c.x ELSE 0]
Bounded(s) == s.kind \in {"pool", "mem"} /\ s.cap > 0
\* how many of an interval of new keys must fit
Lesser(a, b) == IF a < b THEN a ELSE b
In(s, e) == { x \in s.m : e.a <= x /\ x <= e.b }
Width(e) == IF e.b < e.a THEN 0 ELSE e.b - e.a + 1
Took(s, e) == IF "r" \in DOMAIN e THEN e.r ELSE Lesser(Width(e), s.cap - Cardinality(s.m))
After(s, e) ==
  CASE e.op = "fill" -> [s EXCEPT !.m = @ \cup (IF Bounded(s) THEN e.a .. (e.a + Took(s, e) - 1) ELSE e.a .. e.b)]
    [] e.op = "drop" -> [s EXCEPT !.m = @ \ (e.a .. e.b)]
    [] e.op = "half" -> [s EXCEPT !.m = { x \in @ : (x % 2) # e.a }]
    [] e.op = "end" -> [s EXCEPT !.m = {}]
    [] OTHER -> s
Filter(s) == s.kind \in {"count", "std", "scale"}
\* runs that cover exactly m, each key once
Covers(q, m) == LET all == UNION { q[i][1] .. (q[i][1] + q[i][2] - 1) : i \in 1..Len(q) } IN
  /\ all = m
  /\ \A i \in 1..Len(q) : q[i][2] > 0
  /\ \A i \in 1..(Len(q) - 1) : q[i][1] + q[i][2] < q[i + 1][1]
Ok(s, e) ==
  LET t == After(s, e)  here == Cardinality(In(s, e)) IN
  /\ e.n = (IF e.op = "end" THEN 0 ELSE Cardinality(t.m))
  /\ e.dead = (IF s.kind # "hash" \/ e.op = "fill" THEN 0 ELSE Cardinality(s.m) - Cardinality(t.m))      \* each removed item was handed to its destructor
  /\ CASE e.op = "fill" /\ Bounded(s) -> LET must == Lesser(Width(e), s.cap - Cardinality(s.m)) IN
                                            IF s.kind = "pool" THEN e.r = must ELSE must <= e.r /\ e.r <= Width(e)
       [] e.op = "fill" -> e.r = Width(e) - here
       [] e.op = "drop" -> e.r = here
       [] e.op = "look" -> IF Filter(s) THEN e.r >= here ELSE e.r = here
       [] e.op = "half" -> e.r = Cardinality(s.m) - Cardinality(t.m)
       [] e.op = "each" -> Covers(e.runs, s.m) /\ e.r = Cardinality(s.m)
       [] e.op = "end" -> e.r = 0
Events(s) ==
  LET I == { <<a, b>> \in Edges \X Edges : a <= b + 1 } IN
  { [op |-> "fill", a |-> i[1], b |-> i[2]] : i \in { i \in I : s.kind \in {"hash", "fast"} \/ In(s, [a |-> i[1], b |-> i[2]]) = {} } }
  \cup { [op |-> "drop", a |-> i[1], b |-> i[2]] : i \in { i \in I : s.kind \in {"hash", "fast", "pool", "mem"} \/ (s.kind = "count" /\ i[1] .. i[2] \subseteq s.m) } }
  \cup { [op |-> "look", a |-> i[1], b |-> i[2]] : i \in I }
  \cup (IF s.kind = "hash" THEN { [op |-> "half", a |-> p, b |-> 0] : p \in {0, 1} } \cup { [op |-> "each", a |-> w, b |-> 0] : w \in 0..2 } ELSE {})
Abs(s) == s
Good(s) == s.m \subseteq Nat
=============================================================================
