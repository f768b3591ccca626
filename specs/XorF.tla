-------------------------------- MODULE XorF --------------------------------
(* Static xor filters (xorfilter.h).  build makes a filter from a set of     *)
(* keys; find must answer 1 for each of them, and for any key always the     *)
(* same.  buildn/findn do the same for keys base+1*stride .. base+n*stride   *)
(* without listing them: findn counts positive answers among its range.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Keys, Widths
Cfgs == { [w |-> w, km |-> k, seed |-> 1] : w \in Widths, k \in {0, 1} }
InitState(c) == [up |-> FALSE, keys |-> {}, ans |-> {}, n |-> 0]
Set(q) == { q[i] : i \in 1..Len(q) }
After(s, e) ==
  CASE e.op = "build" -> [up |-> TRUE, keys |-> Set(e.k), ans |-> {}, n |-> 0]
    [] e.op = "buildn" -> [up |-> TRUE, keys |-> {}, ans |-> {}, n |-> e.n]
    [] e.op = "find" -> IF "r" \in DOMAIN e THEN [s EXCEPT !.ans = @ \cup {<<e.x, e.r>>}] ELSE s
    [] OTHER -> s
Ok(s, e) ==
  CASE e.op \in {"build", "buildn"} -> e.r = 1
    [] e.op = "find" -> /\ e.x \in s.keys => e.r = 1
                        /\ e.r \in {0, 1}
                        /\ \A p \in s.ans : p[1] = e.x => p[2] = e.r
    [] e.op = "findn" -> e.r = s.n
RECURSIVE Seq1(_)
Seq1(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o Seq1(S \ {x})
Events(s) == IF ~s.up THEN { [op |-> "build", k |-> Seq1(K)] : K \in (SUBSET Keys) \ {{}} }
             ELSE { [op |-> "find", x |-> x] : x \in Keys }
Abs(s) == s
Good(s) == s.up => (s.keys # {} \/ s.n > 0)
=============================================================================
