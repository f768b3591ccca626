------------------------------ MODULE AlgMpmc ------------------------------
(* Multi-producer multi-consumer queue (inc/fast/mpmc_bounded_queue.h): every *)
(* slot carries a turn number, tickets come from head and tail.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Cap,             \* number of slots
          Prog,            \* thread -> sequence of calls: "e" "d" and waiting "E" "D"
          Off,             \* head and tail at the start
          Early            \* publish the slot before writing it (a seeded mistake)
VARIABLES lin, pend, ov, head, tail, slot, pc, k, loc
Threads == DOMAIN Prog
M == INSTANCE Lin WITH Weak <- TRUE
shared == <<head, tail, slot>>
vars == <<lin, pend, ov, head, tail, slot, pc, k, loc>>

TurnAt(i, off) == \* turn of slot i when off items have gone through
  LET rounds == (off - i + Cap - 1) \div Cap IN 2 * rounds
Init == /\ head = Off /\ tail = Off
        /\ slot = [i \in 0..(Cap - 1) |-> [turn |-> TurnAt(i, Off), data |-> 0]]
        /\ pc = [t \in Threads |-> "idle"] /\ k = [t \in Threads |-> 1]
        /\ loc = [t \in Threads |-> [p |-> 0, v |-> 0]]
        /\ M!LinInit(<<>>)

Val(t) == t * 100 + k[t]
Op(t) == Prog[t][k[t]]
Goto(t, l) == pc' = [pc EXCEPT ![t] = l]
Set(t, f, x) == loc' = [loc EXCEPT ![t][f] = x]
Ret(t, r, v) == /\ M!Return(t, r, v) /\ Goto(t, "idle") /\ k' = [k EXCEPT ![t] = @ + 1]
Idx(p) == p % Cap
ETurn(p) == 2 * (p \div Cap)
DTurn(p) == 1 + 2 * (p \div Cap)

Call(t) == /\ pc[t] = "idle" /\ k[t] <= Len(Prog[t])
           /\ M!Invoke(t, CASE Op(t) = "e" -> [op |-> "enqb", xs |-> <<Val(t)>>, n |-> 0]
                            [] Op(t) = "d" -> [op |-> "deqb", xs |-> <<>>, n |-> 1]
                            [] Op(t) = "E" -> [op |-> "enqw", xs |-> <<Val(t)>>, n |-> 0]
                            [] Op(t) = "D" -> [op |-> "deqw", xs |-> <<>>, n |-> 1])
           /\ Goto(t, Op(t))
           /\ UNCHANGED <<head, tail, slot, k, loc>>
\* plain enqueue
E0(t) == /\ pc[t] = "e" /\ Set(t, "p", head) /\ Goto(t, "e1") /\ M!Internal /\ UNCHANGED <<shared, k>>
E1(t) == /\ pc[t] = "e1"
         /\ Goto(t, IF slot[Idx(loc[t].p)].turn = ETurn(loc[t].p) THEN "e2" ELSE "e3")
         /\ M!Internal /\ UNCHANGED <<shared, k, loc>>
E2(t) == /\ pc[t] = "e2"
         /\ IF head = loc[t].p THEN head' = head + 1 /\ Goto(t, "w1") /\ UNCHANGED loc
                               ELSE Set(t, "p", head) /\ Goto(t, "e1") /\ UNCHANGED head
         /\ M!Internal /\ UNCHANGED <<tail, slot, k>>
E3(t) == /\ pc[t] = "e3"
         /\ IF head = loc[t].p THEN Ret(t, 0, <<>>) /\ UNCHANGED loc
                               ELSE Set(t, "p", head) /\ Goto(t, "e1") /\ M!Internal /\ UNCHANGED k
         /\ UNCHANGED shared
\* waiting enqueue
EW(t) == /\ pc[t] = "E" /\ Set(t, "p", head) /\ head' = head + 1 /\ Goto(t, "E1")
         /\ M!Internal /\ UNCHANGED <<tail, slot, k>>
EW1(t) == /\ pc[t] = "E1" /\ slot[Idx(loc[t].p)].turn = ETurn(loc[t].p)
          /\ Goto(t, "w1") /\ M!Internal /\ UNCHANGED <<shared, k, loc>>
\* the slot is ours: write it, hand it over
Write(t)   == slot' = [slot EXCEPT ![Idx(loc[t].p)].data = Val(t)]
Publish(t) == slot' = [slot EXCEPT ![Idx(loc[t].p)].turn = ETurn(loc[t].p) + 1]
W1(t) == /\ pc[t] = "w1" /\ (IF Early THEN Publish(t) ELSE Write(t)) /\ Goto(t, "w2")
         /\ M!Internal /\ UNCHANGED <<head, tail, k, loc>>
W2(t) == /\ pc[t] = "w2" /\ (IF Early THEN Write(t) ELSE Publish(t)) /\ Goto(t, "w3")
         /\ M!Internal /\ UNCHANGED <<head, tail, k, loc>>
W3(t) == /\ pc[t] = "w3" /\ Ret(t, 1, <<>>) /\ UNCHANGED <<shared, loc>>
\* plain dequeue
D0(t) == /\ pc[t] = "d" /\ Set(t, "p", tail) /\ Goto(t, "d1") /\ M!Internal /\ UNCHANGED <<shared, k>>
D1(t) == /\ pc[t] = "d1"
         /\ Goto(t, IF slot[Idx(loc[t].p)].turn = DTurn(loc[t].p) THEN "d2" ELSE "d3")
         /\ M!Internal /\ UNCHANGED <<shared, k, loc>>
D2(t) == /\ pc[t] = "d2"
         /\ IF tail = loc[t].p THEN tail' = tail + 1 /\ Goto(t, "r1") /\ UNCHANGED loc
                               ELSE Set(t, "p", tail) /\ Goto(t, "d1") /\ UNCHANGED tail
         /\ M!Internal /\ UNCHANGED <<head, slot, k>>
D3(t) == /\ pc[t] = "d3"
         /\ IF tail = loc[t].p THEN Ret(t, 0, <<>>) /\ UNCHANGED loc
                               ELSE Set(t, "p", tail) /\ Goto(t, "d1") /\ M!Internal /\ UNCHANGED k
         /\ UNCHANGED shared
\* waiting dequeue
DW(t) == /\ pc[t] = "D" /\ Set(t, "p", tail) /\ tail' = tail + 1 /\ Goto(t, "D1")
         /\ M!Internal /\ UNCHANGED <<head, slot, k>>
DW1(t) == /\ pc[t] = "D1" /\ slot[Idx(loc[t].p)].turn = DTurn(loc[t].p)
          /\ Goto(t, "r1") /\ M!Internal /\ UNCHANGED <<shared, k, loc>>
R1(t) == /\ pc[t] = "r1" /\ Set(t, "v", slot[Idx(loc[t].p)].data) /\ Goto(t, "r2")
         /\ M!Internal /\ UNCHANGED <<shared, k>>
R2(t) == /\ pc[t] = "r2" /\ slot' = [slot EXCEPT ![Idx(loc[t].p)].turn = DTurn(loc[t].p) + 1] /\ Goto(t, "r3")
         /\ M!Internal /\ UNCHANGED <<head, tail, k, loc>>
R3(t) == /\ pc[t] = "r3" /\ Ret(t, 1, <<loc[t].v>>) /\ UNCHANGED <<shared, loc>>

Step(t) == Call(t) \/ E0(t) \/ E1(t) \/ E2(t) \/ E3(t) \/ EW(t) \/ EW1(t) \/ W1(t) \/ W2(t) \/ W3(t)
           \/ D0(t) \/ D1(t) \/ D2(t) \/ D3(t) \/ DW(t) \/ DW1(t) \/ R1(t) \/ R2(t) \/ R3(t)
Next == \E t \in Threads : Step(t)
Linearizable == M!Linearizable
NoStuck == (~ENABLED Next) => M!MayRest
\* a slot in the hands of two threads at once
Owner(t) == pc[t] \in {"w1", "w2", "r1", "r2"}
Exclusive == \A t, u \in Threads : (t # u /\ Owner(t) /\ Owner(u)) => Idx(loc[t].p) # Idx(loc[u].p)
=============================================================================
