-------------------------------- MODULE ZbufF --------------------------------
(* Compression sessions over a fixed output buffer (zbuf_c.c, zbuf_unc.c).     *)
(* The consumer of the output takes as much of every offer as it likes; what   *)
(* it leaves is offered again, first, with what follows.  A consumer that      *)
(* takes nothing ends the call with an error; the session may then only be     *)
(* ended, which delivers the rest if the consumer is ready again.  A session   *)
(* that ends without error has handed over everything exactly once, in order;  *)
(* ending a session, however, releases its memory.                             *)
(* zlib itself is given: what a compressed stream (plain), or the part of one  *)
(* that was fed (ref), means is taken from it.                                 *)
EXTENDS Integers, Sequences, SequencesExt, TLC
CONSTANTS Datas, Takes, Sizes, Levs, Fails, Plains, Feeds, Defects, Kinds

\* m: "" none, "c" compressing, "u" uncompressing; st: "run", "bad" (a call failed),
\* "end" (end of the stream seen); osz: size of the buffer; rem: offered but not
\* taken; out: everything taken; in: the text given (c) or expected (u);
\* damaged: the stream is not the one made from it; short: bytes missing at its
\* end; oom: an allocation may fail (zlib allocates late), calls may report it
New(k) == [k |-> k, m |-> "", st |-> "run", osz |-> 0, rem |-> <<>>, out |-> <<>>, in |-> <<>>, damaged |-> FALSE, short |-> FALSE,
           whole |-> 0, fed |-> 0, ran |-> FALSE, oom |-> FALSE]
InitState(c) == New(c.k)
Events(s) ==
  CASE s.m = "" /\ ~s.ran ->
         IF s.k = "c" THEN { [op |-> "cinit", lev |-> l, wb |-> 15, osz |-> z, fail |-> f] : l \in Levs, z \in Sizes, f \in Fails }
         ELSE { [op |-> "uinit", p |-> p, lev |-> l, wb |-> 15, cut |-> d[1], flip |-> d[2], junk |-> d[3], osz |-> z, fail |-> f] :
                                       p \in Plains, l \in Levs, d \in Defects, z \in Sizes, f \in Fails }
    [] s.m = "c" -> { [op |-> "cfeed", d |-> d, take |-> t] : d \in Datas, t \in Takes } \cup { [op |-> "cend", take |-> t] : t \in Takes }
    [] s.m = "u" -> { [op |-> "ufeed", n |-> n, take |-> t] : n \in Feeds, t \in Takes } \cup { [op |-> "uend", take |-> t] : t \in Takes }
    [] OTHER -> {}

\* ---- the offers of one call, as the consumer saw them: the bytes of all of them
\* (ob), their lengths (ol), what it answered (ot)
Step(a, k, e) ==
  LET q == SubSeq(e.ob, a.at + 1, a.at + e.ol[k])
      t == IF e.ot[k] > 0 THEN e.ot[k] ELSE 0 IN
  [at |-> a.at + e.ol[k], rem |-> SubSeq(q, t + 1, Len(q)), out |-> a.out \o SubSeq(q, 1, t),
   ok |-> a.ok /\ Len(a.rem) <= Len(q) /\ SubSeq(q, 1, Len(a.rem)) = a.rem]
Took(s, e) == FoldLeft(LAMBDA a, k : Step(a, k, e), [at |-> 0, rem |-> s.rem, out |-> s.out, ok |-> TRUE], [k \in 1..Len(e.ol) |-> k])
Refused(e) == \E k \in 1..Len(e.ot) : e.ot[k] <= 0
Stuck(s, e) == (s.oom /\ e.r = -1) \/ Refused(e)
Shape(s, e) == /\ e.wild = 0
               /\ \A k \in 1..Len(e.ol) : e.ol[k] \in 1..s.osz /\ (e.ot[k] <= 0 => k = Len(e.ol))
               /\ Took(s, e).ok
               /\ Refused(e) => e.r = -1
Idle(e) == e.ol = <<>> /\ e.r = 0
Prefix(q, w) == Len(q) <= Len(w) /\ SubSeq(w, 1, Len(q)) = q
All(s) == ~s.short /\ s.fed >= s.whole
After(s, e) ==
  LET t == IF "ol" \in DOMAIN e THEN Took(s, e) ELSE [rem |-> s.rem, out |-> s.out] 
      r == IF "r" \in DOMAIN e THEN e.r ELSE 0
      u == [s EXCEPT !.rem = t.rem, !.out = t.out] IN
  CASE e.op = "cinit" -> IF r # 0 THEN New(s.k) ELSE [New(s.k) EXCEPT !.m = "c", !.osz = e.osz, !.ran = TRUE, !.oom = e.fail > 0]
    [] e.op = "uinit" -> IF r # 0 THEN New(s.k)
                         ELSE [New(s.k) EXCEPT !.m = "u", !.osz = e.osz, !.in = e.p, !.damaged = e.flip >= 0, !.short = e.cut > 0, !.ran = TRUE, !.oom = e.fail > 0,
                                                  !.whole = IF "whole" \in DOMAIN e THEN e.whole ELSE 0]
    [] e.op = "cfeed" -> IF s.m # "c" \/ s.st # "run" THEN s ELSE [u EXCEPT !.in = @ \o e.d, !.st = IF r < 0 THEN "bad" ELSE @]
    [] e.op = "ufeed" -> IF s.m # "u" \/ s.st = "bad" THEN s
                         ELSE [u EXCEPT !.st = IF r < 0 THEN "bad" ELSE IF r = 1 THEN "end" ELSE @,
                                        !.fed = @ + (IF "got" \in DOMAIN e THEN e.got ELSE e.n)]
    [] e.op \in {"cend", "uend"} -> IF s.m = (IF e.op = "cend" THEN "c" ELSE "u") THEN [New(s.k) EXCEPT !.ran = TRUE] ELSE s
Ok(s, e) ==
  LET z == After(s, e) IN
  CASE e.op \in {"cinit", "uinit"} -> /\ e.r \in {0, -1}
                                      /\ e.fail = 0 => e.r = 0
                                      /\ e.r # 0 => e.live = 0
    [] e.op = "cfeed" -> IF s.m # "c" \/ s.st # "run" THEN Idle(e) ELSE Shape(s, e) /\ (~Stuck(s, e) => e.r = 0)
    [] e.op = "cend" -> IF s.m # "c" THEN Idle(e)
                        ELSE /\ Shape(s, e)
                             /\ e.live = 0
                             /\ ~Stuck(s, e) => e.r = 0 /\ Took(s, e).rem = <<>> /\ e.dec = 1 /\ e.acc = Took(s, e).out /\ e.plain = s.in
    [] e.op = "ufeed" -> IF s.m # "u" \/ s.st = "bad" THEN Idle(e)
                         ELSE /\ Shape(s, e)
                              /\ e.r \in {-1, 0, 1}
                              /\ ~s.damaged => /\ Prefix(z.out \o z.rem, s.in)
                                               /\ ~Stuck(s, e) => e.r >= 0 
                                               /\ ~Stuck(s, e) /\ e.got > 0 => e.r = (IF All(z) THEN 1 ELSE 0)
                                               /\ ~All(z) => e.r # 1
    [] e.op = "uend" -> IF s.m # "u" THEN Idle(e)
                        ELSE LET t == Took(s, e) IN
                             /\ Shape(s, e)
                             /\ e.live = 0
                             /\ (s.st = "end" /\ ~Stuck(s, e)) => e.r = 0 /\ t.out = s.in /\ t.rem = <<>>
                             /\ ~s.damaged => /\ Prefix(t.out \o t.rem, s.in)
                                              /\ ~Stuck(s, e) => e.r = 0 /\ t.rem = <<>> /\ t.out = e.ref
                                              /\ ~Stuck(s, e) /\ All(s) => t.out = s.in
Cfgs == { [k |-> k] : k \in Kinds }
Abs(s) == s
Good(s) == (s.m = "u" /\ ~s.damaged) => Prefix(s.out, s.in)
===============================================================================
