------------------------------ MODULE AlgSyncq ------------------------------
(* Blocking queue (inc/fast/syncq.h): two counting semaphores and a mutex.    *)
(* A wait on a semaphore can be interrupted by a signal handler any time and  *)
(* must then be resumed.                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Cap, Prog,          \* thread -> sequence of "E" "D"
          Sigs,               \* number of signals delivered
          TakeIntr,           \* take an interrupted wait as success (the defect that was repaired)
          ReadLate            \* read the element after unlocking (a seeded mistake)
VARIABLES lin, pend, ov, notempty, notfull, lock, rd, wr, e, pc, k, loc, sig
Threads == DOMAIN Prog
M == INSTANCE Lin WITH Weak <- FALSE
vars == <<lin, pend, ov, notempty, notfull, lock, rd, wr, e, pc, k, loc, sig>>
Init == /\ notempty = 0 /\ notfull = Cap /\ lock = 0 /\ rd = 0 /\ wr = 0 /\ sig = 0
        /\ e = [i \in 0..(Cap - 1) |-> 0]
        /\ pc = [t \in Threads |-> "idle"] /\ k = [t \in Threads |-> 1]
        /\ loc = [t \in Threads |-> [i |-> 0, v |-> 0]]
        /\ M!LinInit(<<>>)
Val(t) == t * 100 + k[t]
Op(t) == Prog[t][k[t]]
Goto(t, l) == pc' = [pc EXCEPT ![t] = l]
Inc(i) == IF i + 1 = Cap THEN 0 ELSE i + 1

Call(t) == /\ pc[t] = "idle" /\ k[t] <= Len(Prog[t])
           /\ M!Invoke(t, IF Op(t) = "E" THEN [op |-> "enqw", xs |-> <<Val(t)>>, n |-> 0]
                                         ELSE [op |-> "deqw", xs |-> <<>>, n |-> 1])
           /\ Goto(t, "wait")
           /\ UNCHANGED <<notempty, notfull, lock, rd, wr, e, k, loc, sig>>
Wait(t) == /\ pc[t] = "wait"
           /\ IF Op(t) = "E" THEN notfull > 0 /\ notfull' = notfull - 1 /\ UNCHANGED notempty
                             ELSE notempty > 0 /\ notempty' = notempty - 1 /\ UNCHANGED notfull
           /\ Goto(t, "lock") /\ M!Internal /\ UNCHANGED <<lock, rd, wr, e, k, loc, sig>>
Signal(t) == /\ pc[t] = "wait" /\ sig < Sigs /\ sig' = sig + 1
             /\ Goto(t, IF TakeIntr THEN "lock" ELSE "wait")
             /\ M!Internal /\ UNCHANGED <<notempty, notfull, lock, rd, wr, e, k, loc>>
Lock(t) == /\ pc[t] = "lock" /\ lock = 0 /\ lock' = t /\ Goto(t, "idx")
           /\ M!Internal /\ UNCHANGED <<notempty, notfull, rd, wr, e, k, loc, sig>>
Index(t) == /\ pc[t] = "idx"
            /\ IF Op(t) = "E" THEN loc' = [loc EXCEPT ![t].i = wr] /\ wr' = Inc(wr) /\ UNCHANGED rd
                              ELSE loc' = [loc EXCEPT ![t].i = rd] /\ rd' = Inc(rd) /\ UNCHANGED wr
            /\ Goto(t, IF ReadLate /\ Op(t) = "D" THEN "unlock" ELSE "move")
            /\ M!Internal /\ UNCHANGED <<notempty, notfull, lock, e, k, sig>>
Move(t) == /\ pc[t] = "move"
           /\ IF Op(t) = "E" THEN e' = [e EXCEPT ![loc[t].i] = Val(t)] /\ UNCHANGED loc
                             ELSE loc' = [loc EXCEPT ![t].v = e[loc[t].i]] /\ UNCHANGED e
           /\ Goto(t, IF ReadLate /\ Op(t) = "D" THEN "post" ELSE "unlock")
           /\ M!Internal /\ UNCHANGED <<notempty, notfull, lock, rd, wr, k, sig>>
Unlock(t) == /\ pc[t] = "unlock" /\ lock' = 0
             /\ Goto(t, IF ReadLate /\ Op(t) = "D" THEN "move" ELSE "post")
             /\ M!Internal /\ UNCHANGED <<notempty, notfull, rd, wr, e, k, loc, sig>>
Post(t) == /\ pc[t] = "post"
           /\ IF Op(t) = "E" THEN notempty' = notempty + 1 /\ UNCHANGED notfull
                             ELSE notfull' = notfull + 1 /\ UNCHANGED notempty
           /\ Goto(t, "ret") /\ M!Internal /\ UNCHANGED <<lock, rd, wr, e, k, loc, sig>>
Ret(t) == /\ pc[t] = "ret" /\ M!Return(t, 1, IF Op(t) = "E" THEN <<>> ELSE <<loc[t].v>>)
          /\ Goto(t, "idle") /\ k' = [k EXCEPT ![t] = @ + 1]
          /\ UNCHANGED <<notempty, notfull, lock, rd, wr, e, loc, sig>>
Step(t) == Call(t) \/ Wait(t) \/ Signal(t) \/ Lock(t) \/ Index(t) \/ Move(t) \/ Unlock(t) \/ Post(t) \/ Ret(t)
Next == \E t \in Threads : Step(t)
Linearizable == M!Linearizable
Progress == \E t \in Threads : Call(t) \/ Wait(t) \/ Lock(t) \/ Index(t) \/ Move(t) \/ Unlock(t) \/ Post(t) \/ Ret(t)
NoStuck == (~ENABLED Progress) => M!MayRest
Counts == /\ notempty + notfull <= Cap
          /\ \A t, u \in Threads : (t # u /\ pc[t] \in {"idx", "move", "unlock"}) => pc[u] \notin {"idx", "move", "unlock"} \/ ReadLate
=============================================================================
