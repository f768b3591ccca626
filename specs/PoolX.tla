--------------------------------- MODULE PoolX ---------------------------------
(* Pools of objects (the class over a pool) and the memory manager stacked on a    *)
(* pool.  An object is born when its block is handed out and dies when it is given *)
(* back; a block whose object was never born is free again.                        *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Kinds, Caps, Asks, MaxLive
Cfgs == { [kind |-> k, cap |-> c, size |-> z] : k \in Kinds, c \in Caps, z \in {1, 24, 100} }    \* kind 0: bounded, 1: caller's memory, 2: unbounded
InitState(c) == [c |-> c, cap |-> IF c.kind = 0 THEN c.cap ELSE 0, bs |-> c.size, up |-> FALSE, live |-> {}, raw |-> {}, next |-> 1]
Used(s) == Cardinality(s.live) + Cardinality(s.raw)
Full(s) == s.cap > 0 /\ Used(s) >= s.cap
Ok(s, e) ==
  /\ e.bad = 0                                        \* everything alive still holds its value
  /\ e.alive = Cardinality(s.live) + (IF e.op = "new" /\ e.r > 0 THEN 1 ELSE IF e.op = "del" THEN -1 ELSE 0)
  /\ CASE e.op = "info" -> /\ e.bs >= s.c.size
                           /\ (s.c.kind = 0 => e.tot = s.c.cap) /\ (s.c.kind = 1 => e.tot >= s.c.cap) /\ (s.c.kind = 2 => e.tot = 0)
       [] e.op = "new" -> IF Full(s) THEN e.r = -1 /\ e.born = 0
                          ELSE e.born = 1 /\ (IF e.boom = 1 THEN e.r = -2 ELSE e.r = s.next)
       [] e.op = "del" -> e.died = 1
       [] e.op = "take" -> IF Full(s) \/ e.n > s.bs THEN e.r = 0 ELSE e.r = s.next
       [] e.op = "give" -> TRUE
       [] e.op = "tiny" -> e.r = -1
After(s, e) ==
  CASE e.op = "info" -> IF "tot" \in DOMAIN e THEN [s EXCEPT !.up = TRUE, !.cap = e.tot, !.bs = e.bs] ELSE [s EXCEPT !.up = TRUE]
    [] e.op = "new" -> IF Full(s) \/ e.boom = 1 THEN s ELSE [s EXCEPT !.live = @ \cup {s.next}, !.next = @ + 1]
    [] e.op = "del" -> [s EXCEPT !.live = @ \ {e.i}]
    [] e.op = "take" -> IF Full(s) \/ e.n > s.bs THEN s ELSE [s EXCEPT !.raw = @ \cup {s.next}, !.next = @ + 1]
    [] e.op = "give" -> [s EXCEPT !.raw = @ \ {e.i}]
    [] OTHER -> s
Events(s) ==
  IF ~ s.up THEN { [op |-> "info"] }
  ELSE (IF Used(s) < MaxLive THEN { [op |-> "new", v |-> 7, boom |-> b] : b \in {0, 1} } \cup { [op |-> "take", n |-> n] : n \in { a \in Asks : a <= s.bs \/ a > 1000 } } ELSE {})
       \cup { [op |-> "del", i |-> i] : i \in s.live } \cup { [op |-> "give", i |-> i] : i \in s.raw } \cup { [op |-> "tiny"] }
Abs(s) == <<s.c, s.up, s.live, s.raw, s.next>>
Good(s) == s.live \cap s.raw = {} /\ (s.cap > 0 => Used(s) <= s.cap)
================================================================================
