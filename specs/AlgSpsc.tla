------------------------------ MODULE AlgSpsc ------------------------------
(* Single-producer single-consumer queue (inc/fast/spsc_bounded_queue.h): one *)
(* slot more than its capacity, two indices, the writer owns wr, the reader rd *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Cap, NEnq, NDeq, Early     \* Early: publish before writing (a seeded mistake)
VARIABLES lin, pend, ov, rd, wr, elem, pc, done, got
Threads == {"P", "C"}
M == INSTANCE Lin WITH Weak <- FALSE
vars == <<lin, pend, ov, rd, wr, elem, pc, done, got>>
Sz == Cap + 1
Nxt(i) == IF i + 1 = Sz THEN 0 ELSE i + 1

Init == /\ rd \in 0..(Sz - 1) /\ wr = rd
        /\ elem = [i \in 0..(Sz - 1) |-> 0]
        /\ pc = [th \in Threads |-> "idle"] /\ done = [th \in Threads |-> 0]
        /\ got = 0
        /\ M!LinInit(<<>>)

EnqCall == /\ pc["P"] = "idle" /\ done["P"] < NEnq
           /\ M!Invoke("P", [op |-> "enqb", xs |-> <<done["P"] + 1>>, n |-> 0])
           /\ pc' = [pc EXCEPT !["P"] = "e1"]
           /\ UNCHANGED <<rd, wr, elem, done, got>>
EnqFull == /\ pc["P"] = "e1" /\ Nxt(wr) = rd
           /\ M!Return("P", 0, <<>>)
           /\ pc' = [pc EXCEPT !["P"] = "idle"] /\ done' = [done EXCEPT !["P"] = @ + 1]
           /\ UNCHANGED <<rd, wr, elem, got>>
EnqRoom == /\ pc["P"] = "e1" /\ Nxt(wr) # rd
           /\ pc' = [pc EXCEPT !["P"] = "e2"]
           /\ M!Internal /\ UNCHANGED <<rd, wr, elem, done, got>>
EnqStore == /\ pc["P"] = "e2"
            /\ IF Early THEN wr' = Nxt(wr) /\ UNCHANGED elem
                        ELSE elem' = [elem EXCEPT ![wr] = done["P"] + 1] /\ UNCHANGED wr
            /\ pc' = [pc EXCEPT !["P"] = "e3"]
            /\ M!Internal /\ UNCHANGED <<rd, done, got>>
EnqPublish == /\ pc["P"] = "e3"
              /\ IF Early THEN elem' = [elem EXCEPT ![(wr + Sz - 1) % Sz] = done["P"] + 1] /\ UNCHANGED wr
                          ELSE wr' = Nxt(wr) /\ UNCHANGED elem
              /\ pc' = [pc EXCEPT !["P"] = "e4"]
              /\ M!Internal /\ UNCHANGED <<rd, done, got>>
EnqRet == /\ pc["P"] = "e4"
          /\ M!Return("P", 1, <<>>)
          /\ pc' = [pc EXCEPT !["P"] = "idle"] /\ done' = [done EXCEPT !["P"] = @ + 1]
          /\ UNCHANGED <<rd, wr, elem, got>>

DeqCall == /\ pc["C"] = "idle" /\ done["C"] < NDeq
           /\ M!Invoke("C", [op |-> "deqb", xs |-> <<>>, n |-> 1])
           /\ pc' = [pc EXCEPT !["C"] = "d1"]
           /\ UNCHANGED <<rd, wr, elem, done, got>>
DeqEmpty == /\ pc["C"] = "d1" /\ rd = wr
            /\ M!Return("C", 0, <<>>)
            /\ pc' = [pc EXCEPT !["C"] = "idle"] /\ done' = [done EXCEPT !["C"] = @ + 1]
            /\ UNCHANGED <<rd, wr, elem, got>>
DeqSome == /\ pc["C"] = "d1" /\ rd # wr
           /\ pc' = [pc EXCEPT !["C"] = "d2"]
           /\ M!Internal /\ UNCHANGED <<rd, wr, elem, done, got>>
DeqLoad == /\ pc["C"] = "d2"
           /\ got' = elem[rd]
           /\ pc' = [pc EXCEPT !["C"] = "d3"]
           /\ M!Internal /\ UNCHANGED <<rd, wr, elem, done>>
DeqRelease == /\ pc["C"] = "d3"
              /\ rd' = Nxt(rd)
              /\ pc' = [pc EXCEPT !["C"] = "d4"]
              /\ M!Internal /\ UNCHANGED <<wr, elem, done, got>>
DeqRet == /\ pc["C"] = "d4"
          /\ M!Return("C", 1, <<got>>)
          /\ pc' = [pc EXCEPT !["C"] = "idle"] /\ done' = [done EXCEPT !["C"] = @ + 1]
          /\ UNCHANGED <<rd, wr, elem, got>>

Next == EnqCall \/ EnqFull \/ EnqRoom \/ EnqStore \/ EnqPublish \/ EnqRet
        \/ DeqCall \/ DeqEmpty \/ DeqSome \/ DeqLoad \/ DeqRelease \/ DeqRet
Linearizable == M!Linearizable
InRange == rd \in 0..(Sz - 1) /\ wr \in 0..(Sz - 1)
NoStuck == (~ENABLED Next) => M!MayRest
=============================================================================
