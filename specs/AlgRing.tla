------------------------------ MODULE AlgRing ------------------------------
(* Ring buffer with bulk and burst operations (inc/fast/ringbuf.h): producers *)
(* reserve slots by moving prod.head, copy, wait for earlier producers, and   *)
(* publish by moving prod.tail; consumers symmetrically.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Size,      \* slots (a power of two); Size - 1 are usable
          Prog,      \* thread -> sequence of [op |-> "enqb"/"enqv"/"deqb"/"deqv", n |-> count]
          SP, SC,    \* single producer / consumer variants
          NoOrder    \* do not wait for earlier producers (a seeded mistake)
VARIABLES lin, pend, ov, ph, pt, ch, ct, ring, pc, k, loc
Threads == DOMAIN Prog
Mask == Size - 1
M == INSTANCE Lin WITH Weak <- TRUE, Cap <- Mask
shared == <<ph, pt, ch, ct, ring>>
vars == <<lin, pend, ov, ph, pt, ch, ct, ring, pc, k, loc>>

Init == /\ ph = 0 /\ pt = 0 /\ ch = 0 /\ ct = 0
        /\ ring = [i \in 0..Mask |-> 0]
        /\ pc = [t \in Threads |-> "idle"] /\ k = [t \in Threads |-> 1]
        /\ loc = [t \in Threads |-> [h |-> 0, o |-> 0, n |-> 0, i |-> 0, v |-> <<>>]]
        /\ M!LinInit(<<>>)

Op(t) == Prog[t][k[t]]
Vals(t) == [j \in 1..Op(t).n |-> t * 100 + k[t] * 10 + j]
Enq(t) == Op(t).op \in {"enqb", "enqv"}
Fixed(t) == Op(t).op \in {"enqb", "deqb"}
Goto(t, l) == pc' = [pc EXCEPT ![t] = l]
Ret(t, r, v) == /\ M!Return(t, r, v) /\ Goto(t, "idle") /\ k' = [k EXCEPT ![t] = @ + 1]

Call(t) == /\ pc[t] = "idle" /\ k[t] <= Len(Prog[t])
           /\ M!Invoke(t, IF Enq(t) THEN [op |-> Op(t).op, xs |-> Vals(t), n |-> 0]
                                    ELSE [op |-> Op(t).op, xs |-> <<>>, n |-> Op(t).n])
           /\ Goto(t, "l1") /\ loc' = [loc EXCEPT ![t] = [h |-> 0, o |-> 0, n |-> 0, i |-> 1, v |-> <<>>]]
           /\ UNCHANGED <<shared, k>>
\* own head, then the other side's tail
L1(t) == /\ pc[t] = "l1" /\ loc' = [loc EXCEPT ![t].h = IF Enq(t) THEN ph ELSE ch] /\ Goto(t, "l2")
         /\ M!Internal /\ UNCHANGED <<shared, k>>
L2(t) == /\ pc[t] = "l2" /\ loc' = [loc EXCEPT ![t].o = IF Enq(t) THEN ct ELSE pt] /\ Goto(t, "l3")
         /\ M!Internal /\ UNCHANGED <<shared, k>>
\* decide and reserve (compare-and-set, or a plain store when alone)
Avail(t) == IF Enq(t) THEN Mask + loc[t].o - loc[t].h ELSE loc[t].o - loc[t].h
Cnt(t) == IF Op(t).n > Avail(t) THEN Avail(t) ELSE Op(t).n
L3(t) == /\ pc[t] = "l3"
         /\ IF Op(t).n > Avail(t) /\ (Fixed(t) \/ Avail(t) = 0)
            THEN Ret(t, 0, <<>>) /\ UNCHANGED <<shared, loc>>
            ELSE /\ IF Enq(t)
                    THEN IF SP \/ ph = loc[t].h
                         THEN /\ ph' = loc[t].h + Cnt(t) /\ loc' = [loc EXCEPT ![t].n = Cnt(t)] /\ Goto(t, "cp")
                              /\ UNCHANGED <<pt, ch, ct, ring>>
                         ELSE Goto(t, "l1") /\ UNCHANGED <<shared, loc>>
                    ELSE IF SC \/ ch = loc[t].h
                         THEN /\ ch' = loc[t].h + Cnt(t) /\ loc' = [loc EXCEPT ![t].n = Cnt(t)] /\ Goto(t, "cp")
                              /\ UNCHANGED <<ph, pt, ct, ring>>
                         ELSE Goto(t, "l1") /\ UNCHANGED <<shared, loc>>
                 /\ M!Internal /\ UNCHANGED k
\* copy, one element at a time
Slot(t) == (loc[t].h + loc[t].i - 1) % Size
Copy(t) == /\ pc[t] = "cp"
           /\ IF loc[t].i > loc[t].n THEN Goto(t, "pub") /\ UNCHANGED <<ring, loc>>
              ELSE /\ pc' = pc
                   /\ IF Enq(t) THEN ring' = [ring EXCEPT ![Slot(t)] = Vals(t)[loc[t].i]] /\ loc' = [loc EXCEPT ![t].i = @ + 1]
                                ELSE ring' = ring /\ loc' = [loc EXCEPT ![t].i = @ + 1, ![t].v = Append(@, ring[Slot(t)])]
           /\ M!Internal /\ UNCHANGED <<ph, pt, ch, ct, k>>
\* wait for the calls before this one, then publish
Pub(t) == /\ pc[t] = "pub"
          /\ IF Enq(t) THEN (NoOrder \/ pt = loc[t].h) /\ pt' = loc[t].h + loc[t].n /\ UNCHANGED <<ph, ch, ct, ring>>
                       ELSE (NoOrder \/ ct = loc[t].h) /\ ct' = loc[t].h + loc[t].n /\ UNCHANGED <<ph, pt, ch, ring>>
          /\ Goto(t, "ret") /\ M!Internal /\ UNCHANGED <<k, loc>>
RetOk(t) == /\ pc[t] = "ret" /\ Ret(t, loc[t].n, loc[t].v) /\ UNCHANGED <<shared, loc>>

Step(t) == Call(t) \/ L1(t) \/ L2(t) \/ L3(t) \/ Copy(t) \/ Pub(t) \/ RetOk(t)
Next == \E t \in Threads : Step(t)
Linearizable == M!Linearizable
NoStuck == (~ENABLED Next) => M!MayRest
\* the indices never cross: what is published is between what is consumed and what is reserved
Order == ct <= ch /\ ch <= pt /\ pt <= ph /\ ph <= ct + Mask
=============================================================================
