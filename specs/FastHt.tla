------------------------------- MODULE FastHt -------------------------------
(* Fast integer-keyed hash table (fast-ht.h): a map from keys to non-null    *)
(* values.  After every call the table reports its node count n, its number  *)
(* of buckets nb and the length bm of its longest bag chain; these stay      *)
(* bounded by the largest number of entries that were ever live together.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Keys, Vals, Sizes, Fills, Maps

Cfgs == { [sz |-> z, mf |-> f, km |-> k, seed |-> 1] : z \in Sizes, f \in Fills, k \in Maps }
InitState(c) == [m |-> {}, peak |-> 0, sz |-> c.sz, mf |-> c.mf]
With(s, k) == { p \in s.m : p[1] = k }
Val(s, k) == IF With(s, k) = {} THEN 0 ELSE (CHOOSE p \in With(s, k) : TRUE)[2]
Max(a, b) == IF a > b THEN a ELSE b
SetM(s, m) == [s EXCEPT !.m = m, !.peak = Max(@, Cardinality(m))]
After(s, e) ==
  CASE e.op = "probe" -> IF With(s, e.k) = {} THEN SetM(s, s.m \cup {<<e.k, e.x>>}) ELSE s
    [] e.op = "rep"   -> IF With(s, e.k) = {} THEN s ELSE SetM(s, (s.m \ With(s, e.k)) \cup {<<e.k, e.x>>})
    [] e.op = "rem"   -> SetM(s, s.m \ With(s, e.k))
    [] OTHER -> s
Found(s, k) == IF With(s, k) = {} THEN 0 ELSE 1
Res(s, e) ==
  CASE e.op = "probe" -> [r |-> Val(s, e.k), v |-> 0]
    [] e.op = "rep"   -> [r |-> Found(s, e.k), v |-> 0]
    [] e.op \in {"rem", "find"} -> [r |-> Found(s, e.k), v |-> Val(s, e.k)]
\* bucket arrays start with a power of two and double only for entries that are there
Bounded(s, e) == LET t == After(s, e)  f == IF s.mf = 0 THEN 85 ELSE s.mf IN
                 /\ e.nb <= Max(2 * (IF s.sz = 0 THEN 128 ELSE s.sz), (800 * (t.peak + 1)) \div f)
                 /\ e.bm <= t.peak
Ok(s, e) == /\ Res(s, e) = [r |-> e.r, v |-> e.v]
            /\ e.n = Cardinality(After(s, e).m)
            /\ Bounded(s, e)
Events(s) == { [op |-> o, k |-> k, x |-> x] : o \in {"probe", "rep"}, k \in Keys, x \in Vals } \cup
             { [op |-> o, k |-> k] : o \in {"find", "rem"}, k \in Keys }
Abs(s) == s.m
Good(s) == /\ \A p, q \in s.m : p[1] = q[1] => p = q
           /\ Cardinality(s.m) <= s.peak
=============================================================================
