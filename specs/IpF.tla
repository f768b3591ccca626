--------------------------------- MODULE IpF ----------------------------------
(* IPv4 text.  Addresses and masks are 32-bit values as two 16-bit limbs; an    *)
(* address in dotted form is four numbers joined by dots.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Alpha, MaxLen0, Tails, Masks
Dot == 46
Slash == 47
Digit(c) == c \in 48..57
\* positions of a character
Find(q, c) == { i \in 1..Len(q) : q[i] = c }
RECURSIVE Split(_, _)
Split(q, c) ==
  LET F == Find(q, c) IN
  IF F = {} THEN <<q>>
  ELSE LET i == CHOOSE x \in F : \A y \in F : x <= y
       IN <<SubSeq(q, 1, i - 1)>> \o Split(SubSeq(q, i + 1, Len(q)), c)
\* value of a digit string, capped at 1000; -1 when it is not a number
RECURSIVE Dec(_, _, _)
Dec(q, i, v) == IF i > Len(q) THEN v ELSE LET w == v * 10 + q[i] - 48 IN Dec(q, i + 1, IF w > 1000 THEN 1000 ELSE w)
Val(q) == IF q = <<>> \/ \E i \in DOMAIN q : ~ Digit(q[i]) THEN -1 ELSE Dec(q, 1, 0)
Padded(q) == Len(q) > 1 /\ q[1] = 48
\* parse results: [ok, v, pad]; pad: some number carries superfluous zeros (accepting those is optional)
Bad == [ok |-> FALSE, v |-> <<0, 0>>, pad |-> FALSE]
Quad(q) ==
  LET p == Split(q, Dot) IN
  IF Len(p) # 4 \/ \E i \in 1..Len(p) : ~ (Val(p[i]) \in 0..255) THEN Bad
  ELSE [ok |-> TRUE, v |-> << Val(p[1]) * 256 + Val(p[2]), Val(p[3]) * 256 + Val(p[4]) >>, pad |-> \E i \in 1..4 : Padded(p[i])]
\* the mask with the top n bits set
Top(n) == CASE n = 0 -> 0 [] n >= 16 -> 65535 [] OTHER -> 65536 - 2^(16 - n)
MaskOf(n) == << Top(n), IF n > 16 THEN Top(n - 16) ELSE 0 >>
MaskTxt(q) ==
  IF Find(q, Dot) # {} THEN Quad(q)
  ELSE IF Val(q) \in 0..32 THEN [ok |-> TRUE, v |-> MaskOf(Val(q)), pad |-> Padded(q)] ELSE Bad
Cidr(m) == { n \in 0..32 : MaskOf(n) = m }
\* text of a number and of an address
Num(n) == IF n < 10 THEN <<48 + n>> ELSE IF n < 100 THEN <<48 + n \div 10, 48 + (n % 10)>> ELSE <<48 + n \div 100, 48 + ((n \div 10) % 10), 48 + (n % 10)>>
Text(a) == Num(a[1] \div 256) \o <<Dot>> \o Num(a[1] % 256) \o <<Dot>> \o Num(a[2] \div 256) \o <<Dot>> \o Num(a[2] % 256)
Cut(q, n) == IF Len(q) <= n THEN q ELSE SubSeq(q, 1, n)

Accepts(p, e) == IF ~ p.ok THEN e.r = 0 ELSE (e.r = 0 /\ p.pad) \/ e.r # 0
Ok(s, e) ==
  CASE e.op = "addr" ->
         LET p == Quad(e.s) IN Accepts(p, e) /\ (e.r # 0 => e.a = p.v)
    [] e.op = "both" ->
         LET q == Split(e.s, Slash)
             a == Quad(q[1])
             m == IF Len(q) = 1 THEN [ok |-> TRUE, v |-> <<65535, 65535>>, pad |-> FALSE] ELSE IF Len(q) > 2 THEN Bad ELSE MaskTxt(q[2])
             p == [ok |-> a.ok /\ m.ok, pad |-> a.pad \/ m.pad]
         IN Accepts(p, e) /\ (e.r # 0 => (e.a = a.v /\ e.m = m.v))
    [] e.op = "cidr" -> IF Cidr(e.v) = {} THEN e.r = 0 ELSE e.r # 0 /\ e.n \in Cidr(e.v)
    [] e.op = "text" ->     \* format into a buffer of n > 0 bytes, then parse the result
         /\ e.t = Cut(Text(e.v), e.n - 1)
         /\ e.same = 1
         /\ (e.n > Len(Text(e.v)) => (e.r # 0 /\ e.back = e.v))

Strs == UNION { [1..k -> Alpha] : k \in 0..MaxLen0 }
Base == <<49, 46, 50, 46, 51, 46>>
Events(s) ==
  { [op |-> "addr", s |-> x \o q] : x \in {<<>>, Base, SubSeq(Base, 1, 5)}, q \in Strs }
  \cup { [op |-> "both", s |-> Base \o <<52, 47>> \o q] : q \in Strs }
  \cup { [op |-> "both", s |-> Base \o q \o t] : q \in Strs, t \in Tails }
  \cup { [op |-> "cidr", v |-> m] : m \in Masks }
  \cup { [op |-> "text", v |-> m, n |-> n] : m \in Masks, n \in {1, 2, 7, 8, 15, 16, 17} }
Cfgs == { [k |-> 0] }
InitState(c) == 0
After(s, e) == s
Abs(s) == s
Good(s) == TRUE
===============================================================================
