--------------------------------- MODULE ArcF ---------------------------------
(* A per-thread, fork-aware generator.  A stream belongs to one thread of one    *)
(* process; it owns a key that came from system entropy and may serve at most    *)
(* Budget bytes before it must be refreshed.  Output bytes are opaque, but any    *)
(* run of W bytes is produced once, by one stream, ever.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Budget, W, Sizes, Threads, MaxProcs, Bounds, MaxSeen
\* a stream: own = it has drawn entropy itself (a forked copy has not), use = bytes served since, tail = last W-1 bytes
Fresh == [own |-> FALSE, use |-> 0, tail |-> <<>>]
InitState(c) == [procs |-> << [live |-> TRUE, pid |-> 0, st |-> [t \in Threads |-> Fresh]] >>, seen |-> {}]
Cfgs == { [k |-> 0] }
Stream(s, e) == s.procs[e.p].st[e.t]
\* must this request draw entropy?
Due(x, n) == ~ x.own \/ x.use + n > Budget
Size(e) == IF e.op \in {"buf", "nofeed"} THEN e.n ELSE 4
Windows(q) == { SubSeq(q, i, i + W - 1) : i \in 1..(Len(q) - W + 1) }
Run(s, e) == Stream(s, e).tail \o e.o
Live(s) == { p \in DOMAIN s.procs : s.procs[p].live }
Dead(s) == DOMAIN s.procs \ Live(s)
PidFree(s, q) == \A p \in Live(s) : s.procs[p].pid # q

Entropy(s, e, n) == (Due(Stream(s, e), n) /\ n > 0 => e.ent > 0) /\ e.entb >= 16 * e.ent
Below(v, b) == v[1] < b[1] \/ (v[1] = b[1] /\ v[2] < b[2])
Ok(s, e) ==
  CASE e.op \in {"buf", "word"} ->
         LET q == Run(s, e) w == Windows(q) IN
         /\ Len(e.o) = Size(e)
         /\ Entropy(s, e, Size(e))
         /\ e.over = 0
         /\ (e.pure = 1 => e.filled = 1)
         /\ w \cap s.seen = {}
         /\ Cardinality(w) = (IF Len(q) < W THEN 0 ELSE Len(q) - W + 1)
         /\ (e.op = "buf" /\ e.ent > 0 => e.fresh = 1)
    [] e.op = "unif" ->
         /\ (IF Below(e.b, <<0, 2>>) THEN e.v = <<0, 0>> ELSE Entropy(s, e, 4) /\ Below(e.v, e.b))
         /\ e.over = 0
         /\ (e.pure = 1 => e.filled = 1)
    [] e.op = "nofeed" -> (e.ent > 0 \/ (e.n > 0 /\ Due(Stream(s, e), e.n))) => e.r = 0
    [] OTHER -> e.r = 0
Use(x, e, n) ==
  LET drew == IF "ent" \in DOMAIN e THEN e.ent > 0 ELSE Due(x, n)
      u == IF drew THEN n ELSE x.use + n
  IN [x EXCEPT !.own = @ \/ drew, !.use = IF u > Budget + 1 THEN Budget + 1 ELSE u]
Last(q, n) == IF Len(q) <= n THEN q ELSE SubSeq(q, Len(q) - n + 1, Len(q))
After(s, e) ==
  CASE e.op \in {"buf", "word"} ->
         LET x == Use(Stream(s, e), e, Size(e)) IN
         IF "o" \in DOMAIN e
         THEN [s EXCEPT !.procs[e.p].st[e.t] = [x EXCEPT !.tail = Last(Run(s, e), W - 1)], !.seen = @ \cup Windows(Run(s, e))]
         ELSE [s EXCEPT !.procs[e.p].st[e.t] = x]
    [] e.op = "unif" -> IF Below(e.b, <<0, 2>>) THEN s ELSE [s EXCEPT !.procs[e.p].st[e.t] = [Use(@, e, 4) EXCEPT !.tail = <<>>]]
    [] e.op = "fork" ->
         \* the child's only thread is a copy of the one that forked; it has to draw its own entropy
         LET kid == [live |-> TRUE, pid |-> IF e.q = 0 THEN Len(s.procs) ELSE s.procs[e.q].pid,
                     st |-> [t \in Threads |-> Fresh]]
         IN [s EXCEPT !.procs = Append(@, kid)]
    [] e.op = "exit" -> [s EXCEPT !.procs[e.p].live = FALSE]
    [] OTHER -> s
Events(s) ==
  { [op |-> "buf", p |-> p, t |-> t, n |-> n] : p \in Live(s), t \in Threads, n \in Sizes }
  \cup { [op |-> "word", p |-> p, t |-> t] : p \in Live(s), t \in Threads }
  \cup { [op |-> "unif", p |-> p, t |-> t, b |-> b] : p \in Live(s), t \in Threads, b \in Bounds }
  \cup { [op |-> "nofeed", p |-> p, t |-> t, n |-> 8] : p \in Live(s), t \in Threads }
  \cup (IF Len(s.procs) >= MaxProcs THEN {} ELSE
         { [op |-> "fork", p |-> p, t |-> t, q |-> q] : p \in Live(s), t \in Threads, q \in {0} \cup { d \in Dead(s) : PidFree(s, s.procs[d].pid) } }
         \cup { [op |-> "exit", p |-> p] : p \in { x \in Live(s) : Cardinality(Live(s)) > 1 } })
Abs(s) == s.procs
\* no stream ever serves from a key it did not draw, nor beyond the budget plus one request
Good(s) == \A p \in DOMAIN s.procs : \A t \in Threads : LET x == s.procs[p].st[t] IN (~ x.own => x.use = 0) /\ x.use <= Budget + 1
===============================================================================
