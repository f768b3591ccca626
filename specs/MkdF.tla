--------------------------------- MODULE MkdF ---------------------------------
(* A directory tree as a function from paths (sequences of names) to nodes:      *)
(* <<"d", mode>>, <<"f">> or <<"l", target path>>.  Names are byte sequences.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Bitwise, SequencesExt
CONSTANTS Paths, Setups, Modes, Umasks, AbsForms
Slash == 47
Cfgs == { [um |-> u] : u \in Umasks }
InitState(c) == [t |-> [p \in {} |-> 0], um |-> c.um]
\* components of a path text, empty ones and single dots dropped
Take(a, c) == IF c = Slash THEN [cs |-> IF a.cur \in {<<>>, <<46>>} THEN a.cs ELSE Append(a.cs, a.cur), cur |-> <<>>] ELSE [a EXCEPT !.cur = Append(@, c)]
Comps(q) == FoldLeft(Take, [cs |-> <<>>, cur |-> <<>>], Append(q, Slash)).cs
DotDot == <<46, 46>>
RECURSIVE Join(_)
Join(p) == IF Len(p) = 1 THEN p[1] ELSE p[1] \o <<Slash>> \o Join(Tail(p))
Up(p) == IF p = <<>> THEN <<>> ELSE SubSeq(p, 1, Len(p) - 1)
NewMode(m, um) == m - (m & um)
\* walk the components; every missing one is made.  [ok, t, at]
RECURSIVE Walk(_, _, _, _, _)
Walk(t, at, cs, mode, n) ==
  IF cs = <<>> THEN [ok |-> TRUE, t |-> t, at |-> at]
  ELSE LET c == Head(cs) p == Append(at, c) IN
       IF c = DotDot THEN Walk(t, Up(at), Tail(cs), mode, n)
       ELSE IF p \notin DOMAIN t THEN Walk((p :> <<"d", mode>>) @@ t, p, Tail(cs), mode, n)
       ELSE IF t[p][1] = "d" THEN Walk(t, p, Tail(cs), mode, n)
       ELSE IF t[p][1] = "f" \/ n = 0 THEN [ok |-> FALSE, t |-> t, at |-> at]
       ELSE LET g == t[p][2] IN      \* a link: it must lead to something that exists
            IF g \notin DOMAIN t THEN [ok |-> FALSE, t |-> t, at |-> at]
            ELSE IF t[g][1] = "d" THEN Walk(t, g, Tail(cs), mode, n)
            ELSE Walk(t, Up(g), <<g[Len(g)]>> \o Tail(cs), mode, n - 1)
Wanted(s, e) == Walk(s.t, <<>>, Comps(e.s), NewMode(e.mode, s.um), 8)
Obs(e) ==
  LET N(x) == Comps(x[3])
      I == DOMAIN e.ls
  IN [p \in { N(e.ls[i]) : i \in I } |-> e.ls[CHOOSE i \in I : N(e.ls[i]) = p]]
Kind(v) == IF v[1] = "d" THEN 1 ELSE IF v[1] = "f" THEN 2 ELSE 3
Same(t, g) == DOMAIN g = DOMAIN t /\ \A p \in DOMAIN t : g[p][1] = Kind(t[p]) /\ (t[p][1] = "d" => g[p][2] = t[p][2])
\* between the old tree and the wanted one
Part(t, w, g) == DOMAIN t \subseteq DOMAIN g /\ DOMAIN g \subseteq DOMAIN w /\ \A p \in DOMAIN g : g[p][1] = Kind(w[p]) /\ (w[p][1] = "d" => g[p][2] = w[p][2])
TooLong == 4095
Setup(s, e) == CASE e.op = "file" -> (Comps(e.p) :> <<"f">>) @@ s.t [] e.op = "dir" -> (Comps(e.p) :> <<"d", 448>>) @@ s.t [] OTHER -> (Comps(e.p) :> <<"l", Comps(e.q)>>) @@ s.t
Ok(s, e) ==
  IF e.op # "mk" THEN e.r = 0 /\ Same(Setup(s, e), Obs(e))
  ELSE LET w == Wanted(s, e) g == Obs(e) IN
       CASE e.s = <<>> /\ e.abs = 0 -> e.r < 0 /\ Same(s.t, g)
         [] e.len > TooLong -> e.r < 0 /\ DOMAIN s.t \subseteq DOMAIN g
         [] ~ w.ok -> e.r < 0 /\ Part(s.t, w.t, g)
         [] e.hit = 1 /\ e.m # 3 -> (e.r < 0 /\ Part(s.t, w.t, g)) \/ (e.r = 0 /\ Same(w.t, g))
         [] OTHER -> e.r = 0 /\ Same(w.t, g)
\* the tree observed, read back into a specification tree
Known(s, w, g) == [p \in DOMAIN g |-> IF p \in DOMAIN w THEN w[p] ELSE <<"f">>]
After(s, e) ==
  IF e.op # "mk" THEN [s EXCEPT !.t = Setup(s, e)]
  ELSE IF "ls" \in DOMAIN e /\ e.len > TooLong THEN s
  ELSE IF "ls" \in DOMAIN e THEN [s EXCEPT !.t = Known(s, Wanted(s, e).t, Obs(e))]
  ELSE [s EXCEPT !.t = IF e.s = <<>> /\ e.abs = 0 THEN @ ELSE Wanted(s, e).t]
Free(s, p) == Comps(p) \notin DOMAIN s.t /\ (Len(Comps(p)) = 1 \/ (Up(Comps(p)) \in DOMAIN s.t /\ s.t[Up(Comps(p))][1] = "d"))
Events(s) ==
  UNION { { [op |-> "mk", s |-> q, abs |-> a, mode |-> m, k |-> 0, m |-> 0] : q \in { x \in Paths : a = 1 \/ x = <<>> \/ x[1] # Slash }, m \in Modes } : a \in AbsForms }
  \cup { x \in Setups : Free(s, x.p) }
Abs(s) == s
Idempotent(s) == \A q \in Paths : LET w == Walk(s.t, <<>>, Comps(q), 448, 8) IN w.ok => (Walk(w.t, <<>>, Comps(q), 448, 8) = w /\ (w.at = <<>> \/ w.t[w.at][1] = "d"))
\* every node's parent is a directory; asking again changes nothing
Good(s) == /\ \A p \in DOMAIN s.t : Len(p) = 1 \/ (Up(p) \in DOMAIN s.t /\ s.t[Up(p)][1] = "d")
        /\ Idempotent(s)
===============================================================================
