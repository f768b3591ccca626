-------------------------------- MODULE Alloc --------------------------------
(* Pools of fixed-size blocks (mempool.h) and arenas (arena.h).  An address  *)
(* is a pair (chunk, offset); chunks are numbered in the order in which they *)
(* were obtained from the underlying allocator, cs is the chunk's size.      *)
(*   kind 0/1 : pool over an allocator (mempool_init / mempool_new)          *)
(*   kind 2/3 : pool on caller memory of `msz' bytes (init / new)            *)
(*   kind 4   : arena                                                        *)
(* Events: init, alloc (id, n bytes), free (id), fail (the k-th next request  *)
(* to the underlying allocator fails), fini.  Every event reports nc, the       *)
(* number of chunks obtained so far, and bad, the number of live blocks      *)
(* whose contents are not what their owner wrote.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Kinds, Blks, Maxs, Units, Ids, Lens

Cfgs == { [kind |-> k, blk |-> b, max |-> m, unit |-> u, msz |-> 0, mis |-> 0] : k \in Kinds, b \in Blks, m \in Maxs, u \in Units }
Header == 24      \* bookkeeping at the start of caller memory, at most
PoolObj == 200    \* more than the pool object itself takes

Usable(c) == IF c.blk < 16 THEN 16 ELSE c.blk + ((8 - (c.blk % 8)) % 8)
InitState(c) == [c |-> c, up |-> FALSE, max |-> c.max, live |-> {}, peak |-> 0, fail |-> FALSE]
Max(a, b) == IF a > b THEN a ELSE b
CeilDiv(a, b) == (a + b - 1) \div b
UnitsOf(s) == IF s.c.max > 0 THEN s.c.max ELSE IF s.c.unit = 0 THEN 4096 ELSE s.c.unit
Arena(s) == s.c.kind = 4
OnMem(s) == s.c.kind \in {2, 3}

\* smallest number of blocks caller memory must be good for
Room(s) == LET z == s.c.msz - Header - 24 - (IF s.c.kind = 3 THEN PoolObj ELSE 0) IN
           IF z < 0 THEN 0 ELSE z \div Usable(s.c)

Size(s, e) == IF Arena(s) THEN e.n ELSE s.c.blk
Disjoint(s, e) == \A b \in s.live : b.c # e.c \/ b.o + b.n <= e.o \/ e.o + Size(s, e) <= b.o
Fits(s, e) == /\ e.o >= 0 /\ e.o % 8 = 0
              /\ e.o + Size(s, e) <= e.cs
              /\ Disjoint(s, e)
\* more chunks are obtained only when the existing ones are used up
Thrifty(s, peak, nc) == Arena(s) \/ OnMem(s) \/ nc <= Max(1, CeilDiv(peak, UnitsOf(s)))

NewPeak(s) == Max(s.peak, Cardinality(s.live) + 1)
Exhausted(s) == s.max > 0 /\ Cardinality(s.live) >= s.max

Ok(s, e) ==
  /\ e.bad = 0
  /\ CASE e.op = "init" ->
            IF e.r = 0 THEN OnMem(s) => e.tot >= Max(1, Room(s))
            ELSE e.r = -12 /\ (IF OnMem(s) THEN Room(s) = 0 ELSE s.fail /\ e.f = 0)
       [] e.op = "alloc" ->
            IF ~s.up THEN e.r = -1
            ELSE IF e.r = 1 THEN ~Exhausted(s) /\ Fits(s, e) /\ Thrifty(s, NewPeak(s), e.nc)
            ELSE Exhausted(s) \/ s.fail
       [] e.op = "huge" -> e.r = 0 \/ ~s.up
       [] e.op = "fini" -> e.r = 0          \* everything was given back
       [] OTHER -> TRUE

After(s, e) ==
  CASE e.op = "init" -> IF e.r = 0 THEN [s EXCEPT !.up = TRUE, !.max = IF OnMem(s) THEN e.tot ELSE s.c.max, !.fail = s.fail /\ e.f = 1]
                        ELSE [s EXCEPT !.fail = s.fail /\ e.f = 1]
    [] e.op = "alloc" -> IF e.r = 1 THEN [s EXCEPT !.live = @ \cup {[id |-> e.id, c |-> e.c, o |-> e.o, n |-> Size(s, e)]}, !.peak = NewPeak(s), !.fail = s.fail /\ e.f = 1]
                         ELSE [s EXCEPT !.fail = s.fail /\ e.f = 1]
    [] e.op = "free" -> [s EXCEPT !.live = { b \in @ : b.id # e.id }]
    [] e.op = "fail" -> [s EXCEPT !.fail = TRUE]
    [] OTHER -> s

\* ---- exploration with a reference allocator: lowest free position of chunk 0
Slot(s, k) == k * (IF Arena(s) THEN 64 ELSE Usable(s.c))
Free(s) == { k \in 0..8 : \A b \in s.live : b.o # Slot(s, k) }
Lowest(S) == CHOOSE k \in S : \A j \in S : k <= j
LiveIds(s) == { b.id : b \in s.live }
Events(s) ==
  IF ~s.up THEN { [op |-> "init", r |-> 0, tot |-> s.c.max, nc |-> 1, f |-> 0, bad |-> 0] }
  ELSE { [op |-> "alloc", id |-> i, n |-> n, r |-> IF Exhausted(s) THEN 0 ELSE 1, c |-> 0, cs |-> 100000, o |-> Slot(s, Lowest(Free(s))), nc |-> 1, f |-> 0, bad |-> 0]
          : i \in (IF Ids \subseteq LiveIds(s) THEN {} ELSE {Lowest(Ids \ LiveIds(s))}), n \in (IF Arena(s) THEN Lens ELSE {0}) } \cup
       { [op |-> "free", id |-> i, nc |-> 1, bad |-> 0] : i \in (IF Arena(s) THEN {} ELSE LiveIds(s)) }
Abs(s) == [s EXCEPT !.peak = 0]
Good(s) == /\ \A a, b \in s.live : a # b => a.c # b.c \/ a.o + a.n <= b.o \/ b.o + b.n <= a.o
           /\ s.max > 0 => Cardinality(s.live) <= s.max
=============================================================================
