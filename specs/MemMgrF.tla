------------------------------- MODULE MemMgrF --------------------------------
(* Memory managers: a pair of functions and a context through which containers    *)
(* get memory.  Blocks are numbered as they are handed out; every request reaches *)
(* exactly one provider, with the context and size as given, and the provider's   *)
(* answer comes back as it is.                                                    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Kinds, Sizes, MaxLive
Cfgs == { [k |-> k] : k \in Kinds }          \* 1 custom, 2 custom without free, 3 default, 4 fatal when out of memory
InitState(c) == [k |-> c.k, live |-> {}, next |-> 1]
Own(s) == s.k <= 2
Ctx(s) == IF Own(s) THEN 7 ELSE 0
AllocCall(s, n) == IF Own(s) THEN <<1, 7, n>> ELSE <<3, 0, n>>
FreeCall(s, p) == CASE s.k = 1 -> <<2, 7, p>>
                    [] s.k = 2 -> << >>
                    [] OTHER -> IF p = 0 THEN << >> ELSE <<4, 0, p>>
Ok(s, e) ==
  CASE e.op = "alloc" ->
         /\ e.calls = AllocCall(s, e.n)
         /\ e.ret = (IF e.fail = 0 THEN s.next ELSE IF s.k = 4 THEN -1 ELSE 0)
         /\ e.err = (IF e.fail = 1 /\ s.k = 4 THEN 12 ELSE 0)     \* ENOMEM, and the program ends
    [] e.op = "free" ->
         \* handing back nothing is harmless whether or not it is passed on
         /\ (e.calls = FreeCall(s, e.p) \/ (e.p = 0 /\ ~Own(s) /\ e.calls = <<4, 0, 0>>))
    [] e.op = "null" -> e.ret = 0 /\ e.calls = << >>
    [] e.op = "info" -> e.valid = 1 /\ e.same = 1
After(s, e) ==
  CASE e.op = "alloc" /\ e.fail = 0 -> [s EXCEPT !.live = @ \cup {s.next}, !.next = @ + 1]
    [] e.op = "free" /\ e.p # 0 -> [s EXCEPT !.live = @ \ {e.p}]
    [] OTHER -> s
Events(s) ==
  (IF Cardinality(s.live) < MaxLive THEN { [op |-> "alloc", n |-> n, fail |-> f] : n \in Sizes, f \in {0, 1} } ELSE {})
  \cup { [op |-> "free", p |-> p] : p \in s.live \cup {0} }
  \cup { [op |-> "null"], [op |-> "info"] }
Abs(s) == <<s.k, s.live, s.next>>
Good(s) == \A p \in s.live : p \in 1..s.next - 1
================================================================================
