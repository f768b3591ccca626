-------------------------------- MODULE Hist --------------------------------
(* Linearizability checking of recorded concurrent histories against an     *)
(* abstract object.  A history is a sequence of                              *)
(*   k = "i"  invocation by thread t (annotated with m, the position of its  *)
(*            return event or 0, and with the returned r and v)              *)
(*   k = "r"  return of the invocation at position j                         *)
(*   k = "s"  no thread can make progress although some have not finished    *)
(*   k = "b"  data race, memory error, failed assertion, unlock of a lock    *)
(*            that is not held, livelock: no action of the specification     *)
(*            explains such an event                                         *)
(* Between its invocation and its return every operation takes effect at one *)
(* point.  An operation is allowed to take effect just before some return    *)
(* event, which loses no generality.                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS InitState(_), Do(_, _, _), Blocked(_, _), Traces
VARIABLES t, i, s

Ev == Traces[t].ev

\* the other operations in progress at some moment of operation x
Overlapping(x) == { Ev[y] : y \in { y \in 1..Len(Ev) :
                   /\ Ev[y].k = "i" /\ y # x
                   /\ (Ev[x].m = 0 \/ y < Ev[x].m)
                   /\ (Ev[y].m = 0 \/ Ev[y].m > x) } }

VInit == /\ t \in 1..Len(Traces)
         /\ i = 1
         /\ s = [a |-> InitState(Traces[t].cfg), p |-> {}, l |-> {}]

Invoke == /\ Ev[i].k = "i"
          /\ s' = [s EXCEPT !.p = @ \cup {i}]
          /\ i' = i + 1

Return == /\ Ev[i].k = "r"
          /\ Ev[i].j \in s.l
          /\ s' = [s EXCEPT !.l = @ \ {Ev[i].j}]
          /\ i' = i + 1

Linearize == /\ Ev[i].k = "r"
             /\ Ev[i].j \notin s.l
             /\ \E x \in s.p :
                   /\ Ev[x].m # 0
                   /\ \E a \in Do(s.a, Ev[x], Overlapping(x)) :
                        s' = [a |-> a, p |-> s.p \ {x}, l |-> s.l \cup {x}]
             /\ i' = i

\* blocked threads are fine only if the specification blocks them too
Stuck == /\ Ev[i].k = "s"
         /\ s.l = {}
         /\ \A x \in s.p : Blocked(s.a, Ev[x])
         /\ s.p # {}
         /\ s' = s
         /\ i' = i + 1

VNext == /\ i <= Len(Ev)
         /\ (Invoke \/ Return \/ Linearize \/ Stuck)
         /\ t' = t

VAccept == IF i > Len(Ev) THEN PrintT(<<"ACC", t>>) ELSE TRUE
VPos == PrintT(<<"POS", i>>)
=============================================================================
