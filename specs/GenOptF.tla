------------------------------- MODULE GenOptF -------------------------------
(* Parsers generated by tools/mkgetopt.py: a table of options, each with long  *)
(* and short name, type and default, becomes a structure filled from a command *)
(* line.  What the command line means is OptF; here: what every option does.   *)
(* T: rows [l, s, t, o, d, ph]; l: long name (<<>> none), s: short (0 none),   *)
(* t: type, o: argument optional, d: default, ph: place holder.                *)
EXTENDS OptF
B16 == 65536
MulAdd(x, m, c) ==
  LET a4 == x[4] * m + c
      a3 == x[3] * m + (a4 \div B16)
      a2 == x[2] * m + (a3 \div B16)
      a1 == x[1] * m + (a2 \div B16)
  IN <<a1 \div B16, << (a1 % B16), (a2 % B16), (a3 % B16), (a4 % B16) >> >>
Neg(x) == MulAdd([i \in 1..4 |-> 65535 - x[i]], 1, 1)[2]
Le(x, y) == \/ x = y
            \/ \E i \in 1..4 : x[i] < y[i] /\ \A j \in 1..(i - 1) : x[j] = y[j]
Digit(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE 99
Space == {32} \cup 9..13
RECURSIVE Digits(_, _, _, _), SkipSp(_, _)
SkipSp(q, i) == IF At(q, i) \in Space THEN SkipSp(q, i + 1) ELSE i
Digits(q, i, b, x) == IF i > Len(q) \/ Digit(q[i]) >= b THEN [x EXCEPT !.pos = i]
                      ELSE LET p == MulAdd(x.v, b, Digit(q[i])) IN
                           Digits(q, i + 1, b, [x EXCEPT !.v = p[2], !.big = @ \/ p[1] # 0, !.n = @ + 1])
Num(q, sign) ==
  LET i0 == SkipSp(q, 1)
      i1 == IF sign /\ At(q, i0) \in {43, 45} THEN i0 + 1 ELSE i0
      hex == At(q, i1) = 48 /\ At(q, i1 + 1) \in {88, 120} /\ Digit(At(q, i1 + 2)) < 16
      b == IF hex THEN 16 ELSE IF At(q, i1) = 48 THEN 8 ELSE 10 IN
  Digits(q, IF hex THEN i1 + 2 ELSE i1, b, [v |-> <<0, 0, 0, 0>>, n |-> 0, big |-> FALSE, pos |-> 0]) @@ [neg |-> sign /\ At(q, i0) = 45]
Zero == <<0, 0, 0, 0>>
MaxOf(t) == CASE t = "short" -> <<0, 0, 0, 32767>> [] t = "int" -> <<0, 0, 32767, 65535>> [] t = "long" -> <<32767, 65535, 65535, 65535>>
            [] t = "ushort" -> <<0, 0, 0, 65535>> [] t = "uint" -> <<0, 0, 65535, 65535>> [] OTHER -> <<65535, 65535, 65535, 65535>>
MinOf(t) == CASE t = "short" -> <<0, 0, 0, 32768>> [] t = "int" -> <<0, 0, 32768, 0>> [] t = "long" -> <<32768, 0, 0, 0>> [] OTHER -> Zero
Ints == {"short", "int", "long", "ushort", "uint", "ulong"}
\* <<accepted, value>>
IntVal(t, q) == LET x == Num(q, TRUE) IN
                IF x.n = 0 \/ x.big \/ ~Le(x.v, IF x.neg THEN MinOf(t) ELSE MaxOf(t)) THEN <<FALSE, Zero>> ELSE <<TRUE, IF x.neg THEN Neg(x.v) ELSE x.v>>
Unit(c) == CASE c = 0 -> 0 [] c \in {66, 98} -> 0 [] c \in {75, 107} -> 1 [] c = 77 -> 2 [] c = 71 -> 3 [] c = 84 -> 4 [] c = 80 -> 5 [] OTHER -> -1
RECURSIVE Scale(_, _)
Scale(v, k) == IF k = 0 THEN <<0, v>> ELSE LET p == MulAdd(v, 1024, 0) IN IF p[1] # 0 THEN p ELSE Scale(p[2], k - 1)
SizeVal(q) == LET x == Num(q, FALSE)
                  u == Unit(At(q, x.pos))
                  y == Scale(x.v, u) IN
              IF x.n = 0 \/ x.big \/ u < 0 THEN <<FALSE, Zero>> ELSE IF y[1] # 0 THEN <<FALSE, Zero>> ELSE <<TRUE, y[2]>>
\* decimal fractions of at most three digits, in thousandths; <<accepted, value, specified>>
RECURSIVE Dec(_, _, _)
Dec(q, i, v) == IF At(q, i) \in 48..57 THEN Dec(q, i + 1, <<IF v[1] > 100000 THEN v[1] ELSE v[1] * 10 + q[i] - 48, v[2] + 1>>) ELSE <<v[1], v[2], i>>
DblVal(q) == LET i0 == SkipSp(q, 1)
                 neg == At(q, i0) = DASH
                 i1 == IF At(q, i0) \in {43, 45} THEN i0 + 1 ELSE i0
                 a == Dec(q, i1, <<0, 0>>)
                 b == IF At(q, a[3]) = 46 THEN Dec(q, a[3] + 1, <<0, 0>>) ELSE <<0, 0, a[3]>>
                 v == a[1] * 1000 + b[1] * (CASE b[2] = 1 -> 100 [] b[2] = 2 -> 10 [] OTHER -> 1)
                 more == \/ a[1] > 100000 \/ b[2] > 3 \/ At(q, b[3]) \in {69, 73, 78, 88, 101, 105, 110, 120} IN
             IF more THEN <<TRUE, <<0>>, FALSE>> ELSE IF a[2] + b[2] = 0 THEN <<FALSE, <<0>>, TRUE>> ELSE <<TRUE, <<IF neg THEN 0 - v ELSE v>>, TRUE>>

Built(w, ch, t) == [l |-> w, s |-> ch, t |-> t, o |-> 0, d |-> <<0>>, ph |-> 0, k |-> 0]
\* the options: built in ones first; k: position in the table
Opts(s) == (IF s.help = 1 THEN <<Built(<<104, 101, 108, 112>>, 104, "help")>> ELSE <<>>)
           \o (IF s.ver = 1 THEN <<Built(<<118, 101, 114, 115, 105, 111, 110>>, 86, "version")>> ELSE <<>>)
           \o SelectSeq([k \in 1..Len(s.T) |-> s.T[k] @@ [k |-> k]], LAMBDA r : r.ph = 0)
Takes(r) == IF r.t \in {"bool", "callback", "help", "version"} THEN 0 ELSE IF r.o = 1 THEN 2 ELSE 1
Colons(r) == CASE Takes(r) = 0 -> <<>> [] Takes(r) = 1 -> <<CO>> [] OTHER -> <<CO, CO>>
\* what getopt_long is to be told
Desc(s) ==
  LET R == Opts(s) IN
  [R |-> R, posix |-> 0,
   o |-> FoldLeft(LAMBDA a, r : IF r.s = 0 THEN a ELSE a \o <<r.s>> \o Colons(r), IF s.noperm = 1 THEN <<43>> ELSE <<>>, R),
   S |-> [i \in 1..Len(R) |-> <<IF R[i].l = <<>> THEN <<0>> ELSE R[i].l, Takes(R[i]), FALSE, 1000 + i>>]]

\* ---- one option seen: z.f values, z.p flags, z.unk positions not specified any
\* more (a bad argument was given), z.cb calls, z.bad errors, z.quit 0/"help"/..
Apply(z, D, q) ==
  LET m == q[1]
      I == { i \in 1..Len(D.R) : m = 1000 + i \/ (D.R[i].s # 0 /\ D.R[i].s = m) }
      r == D.R[CHOOSE i \in I : TRUE]
      has == q[4] = 1
      a == Rng(q, 5, Len(q))
      Set(v) == [z EXCEPT !.f[r.k] = v, !.p[r.k] = 1, !.unk = @ \ {r.k}]
      Try(v) == IF v[1] THEN Set(v[2]) ELSE [z EXCEPT !.bad = TRUE, !.unk = @ \cup {r.k}] 
      Up == IF r.k \in z.unk THEN z ELSE [z EXCEPT !.f[r.k] = MulAdd(@, 1, 1)[2], !.p[r.k] = 1] IN
  IF z.quit # "" THEN z
  ELSE IF m \in {QM} THEN [z EXCEPT !.bad = TRUE]
  ELSE CASE r.t \in {"help", "version"} -> [z EXCEPT !.quit = r.t]
         [] r.t = "bool" -> Set(<<1>>)
         [] r.t \in {"callback", "callback_arg"} -> [z EXCEPT !.cb = Append(@, <<r.k, q[4]>> \o a), !.p[r.k] = 1]
         [] r.t = "string" -> IF has THEN Set(a) ELSE [z EXCEPT !.p[r.k] = 1]
         [] r.t = "double" -> LET x == DblVal(a) IN IF x[3] THEN Try(x) ELSE [z EXCEPT !.unk = @ \cup {r.k}, !.vague = TRUE]
         [] r.t = "size" -> IF has THEN Try(SizeVal(a)) ELSE Up
         [] OTHER -> IF has THEN Try(IntVal(r.t, a)) ELSE Up
Holds(q, w) == \E i \in 0..(Len(q) - Len(w)) : SubSeq(q, i + 1, i + Len(w)) = w

InitGen(c) == c
\* what a command line means: the structure, and the arguments left over
Meaning(s, d) ==
  LET D == Desc(s)
      v == Argv(d)
      x == Run(Start, D, v, TRUE, 100000) IN
  [z |-> FoldLeft(LAMBDA a, q : Apply(a, D, q),
                  [f |-> [k \in 1..Len(s.T) |-> s.T[k].d], p |-> [k \in 1..Len(s.T) |-> 0], unk |-> {}, cb |-> <<>>, bad |-> FALSE, vague |-> FALSE, quit |-> ""], x.res),
   rest |-> Flat(x.nons \o Rng(v, x.i, Len(v))), R |-> D.R]
OkGen(s, e) ==
  LET m == Meaning(s, e.d)
      z == m.z IN
  IF z.quit # ""
  THEN /\ e.exit = 1
       /\ z.quit = "version" => Holds(e.t, <<49, 46, 50, 45, 120>>)
       /\ z.quit = "help" => \A i \in 1..Len(m.R) : m.R[i].l = <<>> \/ Holds(e.t, <<45, 45>> \o m.R[i].l)
       /\ e.cb = z.cb
  ELSE /\ e.exit = 0
       /\ z.vague \/ e.r = (IF z.bad THEN 1 ELSE 0)
       /\ e.cb = z.cb
       /\ \A k \in 1..Len(s.T) : k \in z.unk \/ (e.f[k] = z.f[k] /\ e.p[k] = z.p[k])
       /\ e.rest = m.rest
===============================================================================
