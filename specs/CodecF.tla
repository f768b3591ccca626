-------------------------------- MODULE CodecF --------------------------------
(* Base-64 (RFC 4648 alphabet, white space ignored) as a stream transducer and  *)
(* as one-shot calls, and hexadecimal decoding.                                 *)
EXTENDS Integers, Sequences, SequencesExt, TLC
CONSTANTS Chunks, Texts, MaxN
Alphabet == [i \in 0..63 |-> IF i < 26 THEN 65 + i ELSE IF i < 52 THEN 71 + i ELSE IF i < 62 THEN i - 4 ELSE IF i = 62 THEN 43 ELSE 47]
Val(c) == IF c \in 65..90 THEN c - 65 ELSE IF c \in 97..122 THEN c - 71 ELSE IF c \in 48..57 THEN c + 4 ELSE IF c = 43 THEN 62 ELSE IF c = 47 THEN 63 ELSE -1
Pad == 61
B(q, i) == IF i <= Len(q) THEN q[i] ELSE 0
\* i-th (from 0) sextet of the byte string q
Sextet(q, i) == LET g == (i \div 4) * 3
                    v == B(q, g + 1) * 65536 + B(q, g + 2) * 256 + B(q, g + 3)
                IN (v \div (64 ^ (3 - (i % 4)))) % 64
NSext(n) == (n * 8 + 5) \div 6
Enc(q) == [i \in 1..NSext(Len(q)) |-> Alphabet[Sextet(q, i - 1)]]
EncPad(q) == Enc(q) \o [i \in 1..((3 - (Len(q) % 3)) % 3) |-> Pad]
Code(t) == SelectSeq(t, LAMBDA c : Val(c) >= 0)
Dec(t) == LET v == [i \in 1..Len(t) |-> Val(t[i])] IN
  [k \in 1..((Len(t) * 6) \div 8) |->
     LET g == ((k - 1) \div 3) * 4
         w == B(v, g + 1) * 262144 + B(v, g + 2) * 4096 + B(v, g + 3) * 64 + B(v, g + 4)
     IN (w \div (256 ^ (2 - ((k - 1) % 3)))) % 256]
NoNl(t) == SelectSeq(t, LAMBDA c : c # 10)
IsB64(t) == \A i \in 1..Len(t) : Val(t[i]) >= 0 \/ t[i] \in {Pad, 10}

HexV(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE -1
Hex(t) == [k \in 1..((Len(t) + 1) \div 2) |-> HexV(t[2*k - 1]) * 16 + (IF 2 * k <= Len(t) THEN HexV(t[2*k]) ELSE 0)]
HexOk(t) == \A i \in 1..Len(t) : HexV(t[i]) >= 0

\* stream state: everything fed, everything that came out (line breaks removed)
Cfgs == { [m |-> 0], [m |-> 1] }
InitState(c) == [m |-> c.m, fed |-> <<>>, out |-> <<>>]
After(s, e) ==
  LET o == IF "o" \in DOMAIN e THEN e.o ELSE <<>> IN
  CASE e.op = "eblk" -> [s EXCEPT !.fed = @ \o e.s, !.out = @ \o NoNl(o)]
    [] e.op = "dblk" -> [s EXCEPT !.fed = @ \o Code(e.s), !.out = @ \o o]
    [] e.op = "efin" -> [s EXCEPT !.fed = <<>>, !.out = <<>>]
    [] e.op = "dinit" -> [s EXCEPT !.fed = <<>>, !.out = <<>>]
    [] OTHER -> s
Ok(s, e) ==
  CASE e.op = "eblk" -> /\ e.r = Len(e.o) /\ IsB64(e.o)
                        /\ IsPrefix(s.out \o NoNl(e.o), Enc(s.fed \o e.s))
    [] e.op = "efin" -> e.r = Len(e.o) /\ e.z = 1 /\ s.out \o NoNl(e.o) = EncPad(s.fed)
    [] e.op = "dblk" -> e.r = Len(e.o) /\ s.out \o e.o = Dec(s.fed \o Code(e.s))
    [] e.op = "dinit" -> TRUE
    [] e.op = "ebuf" -> \/ e.r >= 0 /\ e.r = Len(e.o) /\ e.z = 1 /\ IsB64(e.o) /\ NoNl(e.o) = EncPad(e.s)
                        \/ e.r < 0 /\ e.n < 2 * Len(e.s) + 6
    [] e.op = "dbuf" -> \/ e.r >= 0 /\ e.r = Len(e.o) /\ e.o = Dec(Code(e.s))
                        \/ e.r < 0 /\ e.n < Len(e.s)
    [] e.op = "hex" -> IF HexOk(e.s) /\ e.n >= (Len(e.s) + 1) \div 2 THEN e.r = Len(e.o) /\ e.o = Hex(e.s) ELSE e.r < 0
Ev(s) ==
  IF s.m = 0 THEN { [op |-> "eblk", s |-> q] : q \in Chunks } \cup { [op |-> "efin"] }
  ELSE { [op |-> "dblk", s |-> q] : q \in Texts } \cup { [op |-> "dinit"] }
Events(s) == { e \in Ev(s) : Len(After(s, e).fed) <= MaxN }
Abs(s) == s
Good(s) == \* encoding and decoding are inverse
  IF s.m = 0 THEN Dec(Code(EncPad(s.fed))) = s.fed ELSE TRUE
===============================================================================
