----------------------------- MODULE CircQueue -----------------------------
(* Single-threaded circular queue (fast/queue.h).  One slot of the storage  *)
(* always stays unused.  `rd` is the slot the next dequeue reads: it does   *)
(* not influence any result, but keeping it in the state makes the explorer *)
(* visit every contents at every wrap-around position.                      *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Sizes, Vals, Kinds

Cfgs == { [sz |-> n, kind |-> k] : n \in Sizes, k \in Kinds }
InitState(c) == [q |-> <<>>, sz |-> c.sz, rd |-> 0]

Cap(s)  == s.sz - 1
Full(s) == Len(s.q) = Cap(s)
Bool(b) == IF b THEN 1 ELSE 0

\* every event reports the queue's own size/full/empty indications after the call
Report(s) == [n |-> Len(s.q), f |-> Bool(Full(s)), e |-> Bool(s.q = <<>>)]

After(s, e) ==
  CASE e.op = "enq" -> IF Full(s) THEN s ELSE [s EXCEPT !.q = Append(@, e.v)]
    [] e.op = "deq" -> IF s.q = <<>> THEN s
                       ELSE [s EXCEPT !.q = Tail(@), !.rd = (@ + 1) % s.sz]
    [] e.op = "reset" -> [s EXCEPT !.q = <<>>, !.rd = 0]

Ret(s, e) ==
  CASE e.op = "enq" -> [r |-> Bool(~Full(s)), v |-> e.v]
    [] e.op = "deq" -> IF s.q = <<>> THEN [r |-> 0, v |-> 0] ELSE [r |-> 1, v |-> Head(s.q)]
    [] e.op = "reset" -> [r |-> 1, v |-> 0]

Complete(s, o) == [op |-> o.op] @@ Ret(s, o) @@ Report(After(s, o))

Ops == { [op |-> "enq", v |-> x] : x \in Vals } \cup { [op |-> "deq"], [op |-> "reset"] }
Events(s) == { Complete(s, o) : o \in Ops }

Ok(s, e) == /\ e.op \in {"enq", "deq", "reset"}
            /\ e = Complete(s, e)
Abs(s) == s
Good(s) == Len(s.q) <= Cap(s) /\ s.rd \in 0..(s.sz - 1)
=============================================================================
