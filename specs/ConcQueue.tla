----------------------------- MODULE ConcQueue -----------------------------
(* Bounded FIFO shared by threads: the abstract object behind the SPSC       *)
(* queue, the MPMC queue (plain and waiting operations), the ring buffer     *)
(* (bulk and burst operations) and the blocking sync queue.                  *)
(* A refusal or a short burst must be exact, except that                     *)
(*   slack = 1  items that operations overlapping it move in the opposite    *)
(*              direction may not count yet (ring with several producers or  *)
(*              consumers)                                                   *)
(*   slack = 3  the same for bursts only (ring with one producer and one     *)
(*              consumer)                                                    *)
(*   slack = 2  it may happen whenever a successful opposite operation       *)
(*              overlaps it (MPMC queue: the slot in turn is still being     *)
(*              emptied / filled)                                            *)
(*   slack = 0  no exception                                                 *)
(* cfg: [cap, slack]                                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

InitState(c) == [q |-> <<>>, cap |-> c.cap, slack |-> c.slack]

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Free(s) == s.cap - Len(s.q)
Enq(s, xs) == [s EXCEPT !.q = @ \o xs]
Deq(s, n) == [s EXCEPT !.q = SubSeq(@, n + 1, Len(@))]
Bool(b) == IF b THEN 1 ELSE 0

RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN x[2] + Sum(S \ {x})
Added(o)   == IF o.m = 0 THEN 0
              ELSE IF o.op \in {"enqb", "enqw"} THEN (IF o.r > 0 THEN Len(o.a) ELSE 0)
              ELSE IF o.op = "enqv" THEN o.r ELSE 0
Removed(o) == IF o.m # 0 /\ o.op \in {"deqb", "deqv", "deqw"} THEN Len(o.v) ELSE 0

\* what may be invisible to an operation overlapped by the operations O
Hidden(s, e, n) == IF n = 0 \/ s.slack = 0 THEN 0
                   ELSE IF s.slack = 2 THEN s.cap
                   ELSE IF s.slack = 1 \/ e.op \in {"enqv", "deqv"} THEN n ELSE 0
Room(s, e, O)  == Max(0, Free(s) - Hidden(s, e, Sum({ <<o.m, Removed(o)>> : o \in O })))
Avail(s, e, O) == Max(0, Len(s.q) - Hidden(s, e, Sum({ <<o.m, Added(o)>> : o \in O })))

\* successor states of s under operation e with the observed result e.r, e.v
Do(s, e, O) ==
  CASE e.op = "enqb" ->                                 \* all or nothing
         IF e.r = Len(e.a) /\ e.a # <<>> /\ Len(e.a) <= Free(s) THEN {Enq(s, e.a)}
         ELSE IF e.r = 0 /\ Len(e.a) > Room(s, e, O) THEN {s} ELSE {}
    [] e.op = "enqv" ->                                 \* as many as possible
         IF /\ e.r <= Min(Len(e.a), Free(s))
            /\ e.r >= Min(Len(e.a), Room(s, e, O))
         THEN {Enq(s, SubSeq(e.a, 1, e.r))} ELSE {}
    [] e.op = "enqw" ->                                 \* waits for space
         IF Len(e.a) <= Free(s) THEN {Enq(s, e.a)} ELSE {}
    [] e.op = "deqb" ->
         LET n == IF e.a = <<>> THEN 1 ELSE e.a[1] IN
         IF e.r # 0 /\ Len(e.v) = n /\ n <= Len(s.q) /\ SubSeq(s.q, 1, n) = e.v THEN {Deq(s, n)}
         ELSE IF e.r = 0 /\ e.v = <<>> /\ n > Avail(s, e, O) THEN {s} ELSE {}
    [] e.op = "deqv" ->
         IF /\ e.r = Len(e.v) /\ e.r <= Min(e.a[1], Len(s.q))
            /\ e.r >= Min(e.a[1], Avail(s, e, O))
            /\ SubSeq(s.q, 1, e.r) = e.v
         THEN {Deq(s, e.r)} ELSE {}
    [] e.op = "deqw" ->
         IF s.q # <<>> /\ e.v = <<Head(s.q)>> THEN {Deq(s, 1)} ELSE {}
    [] e.op = "query" ->                                \* size, full, empty: exact at rest
         IF O # {} \/ e.v = <<Len(s.q), Bool(Free(s) = 0), Bool(s.q = <<>>)>>
         THEN {s} ELSE {}
    [] e.op = "capacity" -> IF e.r = s.cap THEN {s} ELSE {}
    [] e.op = "signal" -> {s}                            \* a handled signal changes nothing
    [] e.op = "reset" -> {[s EXCEPT !.q = <<>>]}
    [] OTHER -> {}

Blocked(s, e) ==
  \/ e.op = "enqw" /\ Len(e.a) > Free(s)
  \/ e.op = "deqw" /\ s.q = <<>>
=============================================================================
