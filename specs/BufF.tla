--------------------------------- MODULE BufF ---------------------------------
(* Growable byte buffer (fast/buf.h): the concatenation of what was appended.  *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Bytes, Caps, MaxN
Cfgs == { [cap |-> n] : n \in Caps }
InitState(c) == [c |-> <<>>]
Rep(n, x) == [i \in 1..n |-> x]
After(s, e) ==
  CASE e.op = "byte" -> [c |-> Append(s.c, e.x)]
    [] e.op = "buf" -> [c |-> s.c \o e.b]
    [] e.op \in {"run", "adv"} -> [c |-> s.c \o Rep(e.n, e.x)]
    [] e.op \in {"reset", "reinit"} -> [c |-> <<>>]
    [] OTHER -> s
Ok(s, e) == LET t == After(s, e) IN e.r = 1 /\ e.c = t.c /\ e.len = Len(t.c) /\ e.cap >= e.len
Ev(s) == { [op |-> "byte", x |-> x] : x \in Bytes } \cup { [op |-> "buf", b |-> b] : b \in {<<>>, <<1>>, <<2, 0>>} }
  \cup { [op |-> "run", n |-> n, x |-> 3] : n \in {0, 3} } \cup { [op |-> "adv", n |-> n, x |-> 4] : n \in {0, 2} }
  \cup { [op |-> "reserve", n |-> n] : n \in {0, 1, 2, 5} } \cup { [op |-> "grow", n |-> n] : n \in {0, 1, 3} } \cup { [op |-> "reset"], [op |-> "reinit", n |-> 1], [op |-> "reinit", n |-> 0] }
Events(s) == { e \in Ev(s) : Len(After(s, e).c) <= MaxN }
Abs(s) == s
Good(s) == Len(s.c) <= MaxN
=============================================================================
