-------------------------------- MODULE RandF ---------------------------------
(* The pseudo-random generators of src/prng, as published:                        *)
(*   splitmix64, xorshift64*, xorshift128+, xorshift1024* (Vigna),                 *)
(*   xoroshiro128+ (Blackman, Vigna; 55 14 36), romuQuad, romuTrio, romuDuo        *)
(* (Overton).  A generator is its words; a seed of zero asks for system entropy.    *)
EXTENDS Word, FiniteSets, TLC, SequencesExt
CONSTANTS Gens, Seeds, Skips
Golden == <<\h9E37, \h79B9, \h7F4A, \h7C15>>
SplitMix(x0) ==
  LET x == AddW(x0, Golden)
      z1 == MulW(XorW(x, Shr(x, 30)), <<\hBF58, \h476D, \h1CE4, \hE5B9>>)
      z2 == MulW(XorW(z1, Shr(z1, 27)), <<\h94D0, \h49BB, \h1331, \h11EB>>)
  IN [x |-> x, o |-> XorW(z2, Shr(z2, 31))]
Xs64(v) ==
  LET a == XorW(v, Shr(v, 12)) b == XorW(a, Shl(a, 25)) c == XorW(b, Shr(b, 27))
  IN [s |-> <<c>>, o |-> MulW(c, <<\h2545, \hF491, \h4F6C, \hDD1D>>)]
Xs128(s) ==
  LET y == s[2] x == XorW(s[1], Shl(s[1], 23))
      z == XorW(XorW(x, y), XorW(Shr(x, 18), Shr(y, 5)))
  IN [s |-> <<y, z>>, o |-> AddW(z, y)]
\* sixteen words and, as the seventeenth entry, the position (as a word)
Xs1024(s) ==
  LET p == s[17][4] q == (p + 1) % 16
      s0 == s[p + 1]
      s1 == XorW(s[q + 1], Shl(s[q + 1], 31))
      z == XorW(XorW(s1, s0), XorW(Shr(s1, 11), Shr(s0, 30)))
  IN [s |-> [s EXCEPT ![q + 1] = z, ![17] = W(q)], o |-> MulW(z, <<\h1066, \h89D4, \h5497, \hFDB5>>)]
Xoro(s) ==
  LET t == XorW(s[1], s[2])
  IN [s |-> <<XorW(XorW(Rotl(s[1], 55), t), Shl(t, 14)), Rotl(t, 36)>>, o |-> AddW(s[1], s[2])]
RomuC == <<\hD383, \h3E80, \h4F4C, \h574B>>
Quad(s) == [s |-> <<MulW(RomuC, s[4]), AddW(s[4], Rotl(s[1], 52)), SubW(s[3], s[2]), Rotl(AddW(s[3], s[1]), 19)>>, o |-> s[2]]
Trio(s) == [s |-> <<MulW(RomuC, s[3]), Rotl(SubW(s[2], s[1]), 12), Rotl(SubW(s[3], s[2]), 44)>>, o |-> s[1]]
Duo(s) == [s |-> <<MulW(RomuC, s[2]), SubW(AddW(Rotl(s[2], 36), Rotl(s[2], 15)), s[1])>>, o |-> s[1]]
Step(g, s) ==
  CASE g = "split" -> LET r == SplitMix(s[1]) IN [s |-> <<r.x>>, o |-> r.o]
    [] g = "xs64" -> Xs64(s[1])
    [] g = "xs128" -> Xs128(s)
    [] g = "frand" -> Xs128(s)
    [] g = "xs1024" -> Xs1024(s)
    [] g = "xoro" -> Xoro(s)
    [] g = "quad" -> Quad(s)
    [] g = "trio" -> Trio(s)
    [] g = "duo" -> Duo(s)
\* n steps: the last state and output
RECURSIVE Run(_, _, _)
Run(g, s, n) == LET r == Step(g, s) IN IF n <= 1 THEN r ELSE Run(g, r.s, n - 1)
\* the first n outputs
RECURSIVE Outs(_, _, _)
Outs(g, s, n) == IF n = 0 THEN <<>> ELSE LET r == Step(g, s) IN <<r.o>> \o Outs(g, r.s, n - 1)
\* the state a seed stands for (each generator seeds the next larger one); a and b are not zero
From128(z) == Outs("xs64", <<z>>, 2)
SelfSeeded(w) == Outs("xs64", <<w>>, 2)
From1024(z) == LET o == Outs("xs128", From128(z), 17) IN SubSeq(o, 1, 16) \o << W(o[17][4] % 16) >>
Seeded(g, a, b) ==
  LET z == SplitMix(a).o IN
  CASE g = "split" -> <<a>>
    [] g = "xs64" -> <<z>>
    [] g \in {"xs128", "frand"} -> From128(z)
    [] g = "xs1024" -> From1024(z)
    [] g = "xoro" -> <<a, z>>
    [] g = "quad" -> <<a, b, NotW(a), NotW(b)>>
    [] g = "trio" -> <<a, b, NotW(a)>>
    [] g = "duo" -> <<a, NotW(a)>>
Two(g) == g \in {"quad", "trio"}
\* does this seed ask for entropy?
Asks(g, e) == g # "split" /\ (e.a = Zero \/ (Two(g) /\ e.b = Zero))
\* a double in [0, 1) with 52 random bits, as those bits
Frac(o) == <<o[1] % 16, o[2], o[3], o[4]>>
Show(g, o) == IF g = "frand" THEN Frac(o) ELSE o

Cfgs == { [g |-> g] : g \in Gens }
InitState(c) == [g |-> c.g, on |-> FALSE, s |-> <<>>]
Ok(s, e) ==
  CASE e.op = "seed" ->
         \* the words that result; with a zero seed they come from the entropy drawn (ent words of it), never from a fixed value
         IF Asks(s.g, e) THEN e.ent > 0 /\ (\E i \in DOMAIN e.st : e.st[i] # Zero) /\ e.fresh = 1
                              /\ (Two(s.g) => (e.a # Zero => e.st[1] = e.a) /\ (e.b # Zero => e.st[2] = e.b))
         ELSE e.ent = 0 /\ e.st = Seeded(s.g, e.a, e.b)
    [] e.op = "first" -> e.ent = 1 /\ e.rng = 1 /\ e.o = Frac(Xs128(SelfSeeded(e.w)).o)     \* the first use of the one that seeds itself
    [] e.op = "next" -> e.o = Show(s.g, Run(s.g, s.s, e.n).o) /\ e.rng = 1
After(s, e) ==
  CASE e.op \in {"seed", "first"} ->
         [s EXCEPT !.on = TRUE, !.s = IF e.op = "first" THEN Xs128(SelfSeeded(e.w)).s ELSE IF "st" \in DOMAIN e THEN e.st ELSE Seeded(s.g, IF e.a # Zero THEN e.a ELSE One, IF e.b # Zero THEN e.b ELSE One)]
    [] e.op = "next" -> [s EXCEPT !.s = Run(s.g, s.s, e.n).s]
Events(s) ==
  (IF s.g = "frand" THEN (IF s.on THEN {} ELSE { [op |-> "first", w |-> a] : a \in Seeds \ {Zero} })
   ELSE { [op |-> "seed", a |-> a, b |-> b] : a \in Seeds, b \in IF Two(s.g) THEN Seeds ELSE {Zero} })
  \cup (IF s.on THEN { [op |-> "next", n |-> n] : n \in Skips } ELSE {})
Abs(s) == <<s.g, s.on, s.s>>
\* a usable generator is never all zero (the one state xorshift cannot leave)
Good(s) == /\ \A i \in DOMAIN s.s : IsWord(s.s[i])
           /\ (s.on /\ s.g # "split" => \E i \in 1..(IF s.g = "xs1024" THEN 16 ELSE Len(s.s)) : s.s[i] # Zero)
===============================================================================
