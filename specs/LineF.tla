--------------------------------- MODULE LineF --------------------------------
(* Line reading.  The stream is what remains to be read, possibly ending in a    *)
(* read error.  After an over-long line the specification does not say how much  *)
(* of that line was consumed, so the state is the set of possible remainders.    *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
CONSTANTS Alpha, MaxLen0, Sizes
CR == 13
LF == 10
ENOSPC == -28
\* e = 1: reading fails when the bytes are exhausted (instead of end of stream)
Cfgs == { [b |-> q, e |-> e] : q \in UNION { [1..k -> Alpha] : k \in 0..MaxLen0 }, e \in {0, 1} }
InitState(c) == [poss |-> {c.b}, e |-> c.e]
IsBrk(c) == c \in {CR, LF}
Brk(q) == LET i == SelectInSeq(q, IsBrk) IN IF i = 0 THEN Len(q) + 1 ELSE i
Rng(q, a, b) == IF a > b THEN <<>> ELSE SubSeq(q, a, b)
Content(q) == Rng(q, 1, Brk(q) - 1)
Ended(q) == Brk(q) <= Len(q)
NextPos(q) == LET i == Brk(q) IN IF i < Len(q) /\ q[i] = CR /\ q[i + 1] = LF THEN i + 2 ELSE i + 1
Rest(q) == Rng(q, NextPos(q), Len(q))
TooLong(q, n) == Len(Content(q)) + 1 > n
\* outcome of reading with remainder q agrees with e
Match(q, e, err) ==
  IF TooLong(q, e.n) THEN e.r = ENOSPC
  ELSE IF ~ Ended(q) /\ err = 1 THEN e.r < 0
  ELSE e.r = Len(Content(q)) /\ e.o = Content(q) /\ e.z = 1
Nexts(q, n, err) ==
  IF TooLong(q, n) THEN { Rng(q, k, Len(q)) : k \in 1..NextPos(q) }
  ELSE IF ~ Ended(q) THEN {<<>>} ELSE {Rest(q)}
After(s, e) == IF "r" \in DOMAIN e THEN [s EXCEPT !.poss = UNION { Nexts(q, e.n, s.e) : q \in { x \in s.poss : Match(x, e, s.e) } }]
               ELSE [s EXCEPT !.poss = UNION { Nexts(q, e.n, s.e) : q \in s.poss }]
Ok(s, e) == e.in = 1 /\ \E q \in s.poss : Match(q, e, s.e)
Events(s) == { [op |-> "read", n |-> n] : n \in Sizes }
Abs(s) == s
\* the lines of a stream together with the line breaks make up the stream
RECURSIVE Lines(_)
Lines(q) == IF q = <<>> THEN <<>> ELSE << Content(q) >> \o Lines(IF Ended(q) THEN Rest(q) ELSE <<>>)
Good(s) == \A q \in s.poss : FlattenSeq(Lines(q)) = SelectSeq(q, LAMBDA c : c \notin {CR, LF})
===============================================================================
