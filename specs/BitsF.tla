-------------------------------- MODULE BitsF --------------------------------
(* Bitsets as sets of positions: three bitsets of n bits; every event reports *)
(* the positions set in each of them.                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Ns
Cfgs == { [n |-> n] : n \in Ns }
InitState(c) == [n |-> c.n, b |-> <<{}, {}, {}>>]
All(s) == 0..(s.n - 1)
After(s, e) ==
  LET d == e.d + 1 A == s.b[d] Bx == s.b[e.i + 1] Set(v) == [s EXCEPT !.b[d] = v] IN
  CASE e.op = "set" -> Set(A \cup {e.i}) [] e.op = "clr" -> Set(A \ {e.i})
    [] e.op \in {"copy", "dup", "dupa"} -> Set(Bx)
    [] e.op = "or" -> Set(A \cup Bx) [] e.op = "and" -> Set(A \cap Bx)
    [] e.op = "xor" -> Set((A \ Bx) \cup (Bx \ A)) [] e.op = "andnot" -> Set(A \ Bx)
    [] e.op = "not" -> Set(All(s) \ A) [] e.op \in {"new", "newa"} -> Set({}) [] e.op = "test" -> s
ToSet(q) == { q[i] : i \in 1..Len(q) }
Ok(s, e) == LET t == After(s, e) IN
  /\ e.r = (IF e.op = "test" /\ e.i \in s.b[e.d + 1] THEN 1 ELSE 0)
  /\ ToSet(e.x) = t.b[1] /\ ToSet(e.y) = t.b[2] /\ ToSet(e.z) = t.b[3]
Bit(n) == {0, n - 1, n \div 2} \cap 0..(n - 1)
Events(s) == { [op |-> o, d |-> d, i |-> i] : o \in {"set", "clr", "test"}, d \in 0..2, i \in Bit(s.n) }
   \cup { [op |-> o, d |-> d, i |-> i] : o \in {"copy", "or", "and", "xor", "andnot", "dup", "dupa"}, d \in 0..2, i \in 0..2 }
   \cup { [op |-> o, d |-> d, i |-> 0] : o \in {"not", "new", "newa"}, d \in 0..2 }
Abs(s) == s
Good(s) == \A j \in 1..3 : s.b[j] \subseteq All(s)
=============================================================================
