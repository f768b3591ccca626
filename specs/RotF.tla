--------------------------------- MODULE RotF ---------------------------------
(* A log file and its numbered copies: a partial function from index to contents, *)
(* index -1 being the file itself.  Contents are fresh numbers; -2 is a directory. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Idx, Limits, Faults, Calls, Names, Forms, Sizes
Cur == -1
Dir == -2
InitState(c) == [f |-> [i \in {} |-> 0], mb |-> [i \in {} |-> <<0, 0>>], nxt |-> 1, long |-> c.nm = 4 /\ c.form + 12 > 4095]   \* no certain room for a suffix: may be refused
Cfgs == { [nm |-> n, form |-> m] : n \in Names, m \in Forms }
Put(f, i, v) == (i :> v) @@ f
Drop(f, I) == [i \in DOMAIN f \ I |-> f[i]]
Has(f, i) == i \in DOMAIN f
Listing(e) == { e.ls[j][1] : j \in DOMAIN e.ls }
Files(e) == [i \in Listing(e) |-> LET j == CHOOSE j \in DOMAIN e.ls : e.ls[j][1] = i IN e.ls[j][2]]
\* a complete rotation keeping n copies; copies far beyond the limit may stay
Shift(f, n) == [i \in { x \in 0..(n - 1) : Has(f, x - 1) \/ (x = n - 1 /\ Has(f, x)) } |-> IF Has(f, i - 1) THEN f[i - 1] ELSE f[i]]
Far(n) == n + 100
Rotated(f, g, n) ==
  /\ \A i \in 0..(n - 1) : IF Has(f, i - 1) THEN Has(g, i) /\ g[i] = f[i - 1]
                          ELSE Has(g, i) => (i = n - 1 /\ Has(f, i) /\ g[i] = f[i])   \* the oldest may stay when nothing takes its place
  /\ ~ Has(g, Cur)
Near(f, g, n) == \A i \in DOMAIN g : i >= n => (i >= Far(n) /\ Has(f, i) /\ g[i] = f[i])
\* whatever happened: nothing within the limit is lost; a copy is where it was or one place up; nothing new appears
Kept(f, g, n) ==
  /\ \A i \in DOMAIN f : i < n - 1 => ((Has(g, i) /\ g[i] = f[i]) \/ (Has(g, i + 1) /\ g[i + 1] = f[i]))
  /\ \A i \in DOMAIN g : (Has(f, i) /\ f[i] = g[i]) \/ (Has(f, i - 1) /\ f[i - 1] = g[i] /\ i < n)
\* beyond what one rotation drops, everything survives
Regular(f) == \A i \in DOMAIN f : f[i] # Dir
Irregular(f, n) == \E i \in DOMAIN f : f[i] = Dir /\ i < n - 1
Rot(s, e, n) ==
  LET g == Files(e) IN
  /\ IF n <= 0 THEN \A i \in DOMAIN g : (Has(s.f, i) /\ s.f[i] = g[i]) \/ (i = 0 /\ Has(s.f, Cur) /\ g[0] = s.f[Cur])
     ELSE Kept(s.f, g, n)
  /\ n > 0 /\ e.how = 0 /\ ~ s.long =>
       IF Irregular(s.f, n) THEN e.r < 0
       ELSE \/ e.r = 0 /\ Rotated(s.f, g, n) /\ (Regular(s.f) => Near(s.f, g, n))
            \/ ~ Has(s.f, Cur) /\ g = s.f
            \/ e.r < 0 /\ ~ Regular(s.f)
  /\ n > 0 /\ e.how = 1 /\ e.r = 0 /\ Has(s.f, Cur) => Rotated(s.f, g, n)
  /\ s.long => (e.how = 2 \/ e.r < 0 \/ Rotated(s.f, g, n))
Over(s, lim) == LET z == s.mb[Cur] IN z[1] > lim \/ (z[1] = lim /\ (z[2] > 0 \/ z[1] = 0))     \* a file without padding holds a few bytes
Ok(s, e) ==
  /\ e.alien = 0
  /\ Cardinality(Listing(e)) = Len(e.ls)
  /\ CASE e.op = "rot" -> Rot(s, e, e.n)
       [] e.op = "rots" ->
            IF Has(s.f, Cur) /\ s.f[Cur] # Dir /\ Over(s, e.lim)
            THEN Rot(s, e, e.n) \/ (e.how = 1 /\ Files(e) = s.f /\ e.r < 0)
            ELSE /\ Files(e) = s.f
                 /\ (e.how = 0 => IF Has(s.f, Cur) /\ s.f[Cur] = Dir THEN e.r < 0 ELSE e.r = 0)
       [] OTHER -> e.r = 0 /\ Files(e) = (CASE e.op = "put" -> Put(s.f, e.i, e.id) [] e.op = "dir" -> Put(s.f, e.i, Dir) [] OTHER -> Drop(s.f, {e.i}))
Seen(s, e) == IF "ls" \in DOMAIN e THEN Files(e)
              ELSE IF e.op \in {"rot", "rots"} /\ e.k = 0 /\ e.n > 0 /\ ~ Irregular(s.f, e.n) /\ (e.op = "rots" => Has(s.f, Cur) /\ Over(s, e.lim)) THEN Shift(s.f, e.n) ELSE s.f
After(s, e) ==
  CASE e.op = "put" -> [s EXCEPT !.f = Put(@, e.i, e.id), !.mb = Put(@, e.i, <<e.mb, e.extra>>), !.nxt = e.id + 1]
    [] e.op = "dir" -> [s EXCEPT !.f = Put(@, e.i, Dir)]
    [] e.op = "del" -> [s EXCEPT !.f = Drop(@, {e.i})]
    [] OTHER -> [s EXCEPT !.f = Seen(s, e)]
Events(s) ==
  { [op |-> "put", i |-> i, id |-> s.nxt, mb |-> z[1], extra |-> z[2]] : i \in { x \in Idx : ~ Has(s.f, x) }, z \in Sizes }
  \cup { [op |-> "rot", n |-> n, k |-> k, m |-> m] : n \in Limits, k \in Calls, m \in Faults }
  \cup { [op |-> "rots", n |-> n, lim |-> l, k |-> 0, m |-> 0] : n \in Limits, l \in {0, 1, 2} }
\* contents matter only by age order
Rank(f, i) == Cardinality({ j \in DOMAIN f : f[j] < f[i] })
Abs(s) == <<[i \in DOMAIN s.f |-> Rank(s.f, i)], IF Has(s.f, Cur) THEN s.mb[Cur] ELSE <<0, 0>>, s.long>>
\* a rotation followed by any number of others never brings a dropped copy back, and copies are distinct
Good(s) == \A i, j \in DOMAIN s.f : i # j /\ s.f[i] # Dir => s.f[i] # s.f[j]
===============================================================================
