------------------------------ MODULE HashTab ------------------------------
(* The policy-based hash table (hashtab.h) as a finite map.  An item is a    *)
(* number k*100+v: key k, value v; the map is a set of items with distinct   *)
(* keys.  Every event carries r (the call's result, 0 for a pointer that is  *)
(* null, the item otherwise), v (items handed out), d (items handed to the   *)
(* destructor during the call) and n (number of nodes afterwards).           *)
(* Operations ending in "f" run while the allocator has no memory left, those *)
(* ending in "g" while it can provide one node but no larger bucket array:    *)
(* the first must leave the map alone and say so, the second must not notice. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Keys, Vals, Mods, Sizes, Fills, OpNames

Cfgs == { [hm |-> h, ls |-> l, fm |-> f] : h \in Mods, l \in Sizes, f \in Fills }
InitState(c) == [m |-> {}, hm |-> c.hm, ls |-> IF "ls" \in DOMAIN c THEN c.ls ELSE 0]

Key(x) == x \div 100
Item(e) == e.k * 100 + e.x
With(s, k) == { y \in s.m : Key(y) = k }
At(s, k) == CHOOSE y \in s.m : Key(y) = k
Picked(s, e) == { y \in s.m : y % 2 = e.k }

RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>>
             ELSE LET a == CHOOSE a \in S : \A b \in S : a <= b IN <<a>> \o Sorted(S \ {a})
NoDup(q) == \A i, j \in 1..Len(q) : i # j => q[i] # q[j]
Set(q) == { q[i] : i \in 1..Len(q) }

Base(o) == CASE o \in {"insf", "insg"} -> "ins" [] o \in {"probef", "probeg"} -> "probe"
             [] o \in {"repf", "repg"} -> "rep" [] OTHER -> o
Starved(s, e) == e.op \in {"insf", "probef", "repf"} /\ With(s, e.k) = {}

Put(s, e) == [s EXCEPT !.m = (@ \ With(s, e.k)) \cup {Item(e)}]

AfterB(s, e, op) ==
  CASE op \in {"ins", "probe"} -> IF With(s, e.k) = {} THEN Put(s, e) ELSE s
    [] op = "rep"   -> Put(s, e)
    [] op = "rem"   -> [s EXCEPT !.m = @ \ With(s, e.k)]
    [] op = "remif" -> [s EXCEPT !.m = @ \ Picked(s, e)]
    [] OTHER -> s
After(s, e) == IF Starved(s, e) THEN s ELSE AfterB(s, e, Base(e.op))

EEXIST == -17
ENOENT == -2
ENOMEM == -12
ResB(s, e, op) ==
  LET w == With(s, e.k)  f == w # {} IN
  CASE op = "ins"   -> [r |-> IF f THEN EEXIST ELSE 0, v |-> <<>>, d |-> <<>>]
    [] op = "probe" -> [r |-> IF f THEN At(s, e.k) ELSE Item(e), v |-> <<>>, d |-> <<>>]
    [] op = "rep"   -> [r |-> 0, v |-> <<>>, d |-> Sorted(w)]
    [] op = "look"  -> [r |-> IF f THEN 1 ELSE 0, v |-> Sorted(w), d |-> <<>>]
    [] op = "rem"   -> [r |-> IF f THEN 0 ELSE ENOENT, v |-> Sorted(w), d |-> Sorted(w)]
    [] op = "remif" -> [r |-> Cardinality(Picked(s, e)), v |-> <<>>, d |-> Sorted(Picked(s, e))]
    [] op = "apply" -> [r |-> 0, v |-> Sorted(s.m), d |-> <<>>]
    [] op = "iter"  -> [r |-> Cardinality(s.m), v |-> Sorted(s.m), d |-> <<>>]   \* harness sorts
    [] op = "sorted" -> [r |-> Cardinality(s.m), v |-> Sorted(s.m), d |-> <<>>]  \* order as visited
    [] op = "delete" -> [r |-> 0, v |-> <<>>, d |-> Sorted(s.m)]

Res(s, e) == IF Starved(s, e) \/ e.op \in {"newf", "iterf"}
             THEN [r |-> IF e.op = "probef" THEN 0 ELSE ENOMEM, v |-> <<>>, d |-> <<>>]
             ELSE ResB(s, e, Base(e.op))

Good(s) == \A x, y \in s.m : Key(x) = Key(y) => x = y
Abs(s) == s
Nodes(s, e) == IF e.op = "delete" THEN 0 ELSE Cardinality(After(s, e).m)

Bucket(s, e) == /\ NoDup(e.v) /\ Set(e.v) \subseteq s.m
                /\ { y \in s.m : Key(y) % s.hm = e.k % s.hm } \subseteq Set(e.v)
                /\ e.r = Len(e.v)
                /\ e.d = <<>>

\* the table's statistics: what the call added to each count, and its shape
Z5 == <<0, 0, 0, 0, 0>>          \* inserts, lookups, failed lookups, replacements, removals
Counted(s, e) ==
  LET op == Base(e.op) IN
  IF Starved(s, e) \/ op \notin {"ins", "probe", "rep", "look", "rem", "remif"} THEN Z5
  ELSE IF op = "remif" THEN <<0, 0, 0, 0, Cardinality(Picked(s, e))>>
  ELSE LET f == With(s, e.k) # {} IN
       CASE op = "look" -> IF f THEN <<0, 2, 0, 0, 0>> ELSE <<0, 0, 2, 0, 0>>     \* the harness looks twice
         [] op = "rem" -> IF f THEN <<0, 0, 0, 0, 1>> ELSE Z5
         [] ~f -> <<1, 0, 0, 0, 0>>
         [] op = "rep" -> <<0, 0, 0, 1, 0>>
         [] OTHER -> Z5
Shape(s, e) == LET n == e.n  z == e.st[7]  f == e.st[8] IN
               /\ z = 2^(s.ls + e.st[6])
               /\ f <= n /\ f <= z /\ (n > 0 => f > 0)
               /\ n > 0 => e.st[9] * f >= n
Stats(s, e) == e.op = "delete" \/ (SubSeq(e.st, 1, 5) = Counted(s, e) /\ Shape(s, e))

Ok(s, e) == /\ e.n = Nodes(s, e)
            /\ Stats(s, e)
            /\ IF e.op = "bucket" THEN Bucket(s, e)
               ELSE LET x == Res(s, e) IN e.r = x.r /\ e.v = x.v /\ e.d = x.d

Events(s) ==
  { [op |-> o, k |-> k, x |-> x] : o \in OpNames \cap {"ins", "probe", "rep", "insf", "probef", "repf", "insg", "probeg", "repg"}, k \in Keys, x \in Vals } \cup
  { [op |-> o, k |-> k] : o \in OpNames \cap {"look", "rem", "bucket"}, k \in Keys } \cup
  { [op |-> o, k |-> k] : o \in OpNames \cap {"remif"}, k \in {0, 1} } \cup
  { [op |-> o, k |-> 0] : o \in OpNames \cap {"apply", "iter", "sorted", "iterf"} } \cup
  { [op |-> o, k |-> k] : o \in OpNames \cap {"newf"}, k \in {0, 1} }

\* ---- histories (Hist) : d is part of the operation's effect, n is only known at rest
Do(s, e, O) ==
  LET f == [op |-> e.op, k |-> e.a[1], x |-> IF Len(e.a) > 1 THEN e.a[2] ELSE 0] IN
  IF e.op = "stats" THEN (IF O # {} \/ e.r = Cardinality(s.m) THEN {s} ELSE {})
  ELSE LET x == Res(s, f) IN IF e.r = x.r /\ e.v = x.v \o x.d THEN {After(s, f)} ELSE {}
Blocked(s, e) == FALSE
=============================================================================
