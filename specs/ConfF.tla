-------------------------------- MODULE ConfF --------------------------------
(* Configuration files (configfile.c).  A file is lines ended by LF, CR or     *)
(* CR LF.  Empty lines do not count; a line that ends in a backslash continues *)
(* on the next one; comments start with '#'.  Indentation (blank = 1 column,   *)
(* tab = up to the next multiple of 4) nests lines under the section line      *)
(* ("name:") before them; any other line is an entry "key = value",            *)
(* "key value" or just "key" (value 1).                                        *)
EXTENDS Integers, Sequences, SequencesExt, TLC
CONSTANTS Files, Paths, Nums, Kinds

Space == {32} \cup 9..13
HASH == 35  COLON == 58  EQ == 61  BSL == 92  SLASH == 47
Rng(q, a, b) == IF a > b THEN <<>> ELSE SubSeq(q, a, b)
First(q, i, S) == LET z == SelectInSubSeq(q, i, Len(q), LAMBDA c : c \notin S) IN IF z = 0 THEN Len(q) + 1 ELSE z
Last0(q, i) == SelectLastInSubSeq(q, 1, i, LAMBDA c : c \notin Space)
Trim(q) == Rng(q, First(q, 1, Space), Last0(q, Len(q)))
Pos(q, c) == LET I == { i \in 1..Len(q) : q[i] = c } IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j

\* ---- lines
Lines(d) ==
  LET z == FoldLeft(LAMBDA x, c :
         IF c = 10 THEN IF x.cr THEN [x EXCEPT !.cr = FALSE] ELSE [x EXCEPT !.out = Append(@, x.cur), !.cur = <<>>]
         ELSE IF c = 13 THEN [out |-> Append(x.out, x.cur), cur |-> <<>>, cr |-> TRUE]
         ELSE [x EXCEPT !.cur = Append(@, c), !.cr = FALSE],
         [out |-> <<>>, cur |-> <<>>, cr |-> FALSE], d)
  IN IF z.cur = <<>> THEN z.out ELSE Append(z.out, z.cur)
\* continuations joined; open: the file ends inside one
Logical(d) ==
  FoldLeft(LAMBDA x, l :
     IF l = <<>> THEN x
     ELSE IF l[Len(l)] = BSL THEN [x EXCEPT !.cur = @ \o Rng(l, 1, Len(l) - 1), !.open = TRUE]
     ELSE [out |-> Append(x.out, x.cur \o l), cur |-> <<>>, open |-> FALSE],
     [out |-> <<>>, cur |-> <<>>, open |-> FALSE], Lines(d))
Blank(l) == First(l, 1, Space) > Len(l)
Col(l) == FoldLeft(LAMBDA c, x : IF x = 32 THEN c + 1 ELSE ((c \div 4) + 1) * 4, 0, Rng(l, 1, First(l, 1, {32, 9}) - 1))
Comment(l) == LET i == First(l, 1, {32, 9}) IN i <= Len(l) /\ l[i] = HASH
Entry(t) == LET e == Pos(t, EQ)
                b == Pos(t, 32)
                p == IF e # 0 THEN e ELSE b IN
            IF p = 0 THEN <<t, <<49>>>> ELSE <<Trim(Rng(t, 1, p - 1)), Trim(Rng(t, p + 1, Len(t)))>>

\* ---- nesting.  secs: all sections in file order (the first is the root) with
\* their depth and entries; st: open blocks, innermost last: <<section, column>>
Root == [lv |-> 0, name |-> <<60, 82, 79, 79, 84, 62>>, kv |-> <<>>]
Place(x, l) ==
  LET c == Col(l)
      t == Trim(l)
      top == x.st[Len(x.st)]
      st == IF c = top[2] THEN x.st
            ELSE IF c > top[2] THEN Append(x.st, <<x.prev, c>>)
            ELSE SelectSeq(x.st, LAMBDA b : b[2] <= c)
      sec == st[Len(st)][1] IN
  IF x.bad # "" \/ Blank(l) \/ Comment(l) THEN x
  ELSE IF c > top[2] /\ x.prev = 0 THEN [x EXCEPT !.bad = "orphan"]        \* indented under an entry
  ELSE IF st[Len(st)][2] # c THEN [x EXCEPT !.bad = "ragged"]              \* back to a column no block has
  ELSE IF t[Len(t)] = COLON
       THEN [x EXCEPT !.st = st, !.prev = Len(x.secs) + 1,
                      !.secs = Append(@, [lv |-> x.secs[sec].lv + 1, name |-> Rng(t, 1, Len(t) - 1), kv |-> <<>>])]
       ELSE [x EXCEPT !.st = st, !.prev = 0, !.secs = [@ EXCEPT ![sec].kv = Append(@, Entry(t))]]
Parse(d) == LET g == Logical(d)
                p == FoldLeft(Place, [secs |-> <<Root>>, st |-> <<<<1, 0>>>>, prev |-> 1, bad |-> ""], g.out)
            IN [p EXCEPT !.bad = IF p.bad = "" /\ g.open THEN "open" ELSE p.bad]

\* ---- lookups
Split(q) == LET a == FoldLeft(LAMBDA x, c : IF c = SLASH THEN [out |-> Append(x.out, x.cur), cur |-> <<>>] ELSE [x EXCEPT !.cur = Append(@, c)],
                              [out |-> <<>>, cur |-> <<>>], q)
            IN Append(a.out, a.cur)
\* components: runs of slashes count once, a leading one makes an empty component
Comps(q) == LET t == Trim(q)
                f == SelectSeq(Split(t), LAMBDA x : x # <<>>) IN
            IF f = <<>> THEN <<>> ELSE IF t[1] = SLASH THEN <<<<>>>> \o f ELSE f
Strip(q) == IF q # <<>> /\ q[1] = SLASH THEN Rng(q, 2, Len(q)) ELSE q
\* children of section i: one level deeper, before the next section that is not
Within(S, i) == { j \in (i + 1)..Len(S) : \A k \in (i + 1)..j : S[k].lv > S[i].lv }
Child(S, i, name) == LET I == { j \in Within(S, i) : S[j].lv = S[i].lv + 1 /\ S[j].name = name } IN
                     IF i = 0 \/ I = {} THEN 0 ELSE CHOOSE j \in I : \A k \in I : j <= k
Walk(S, i, f) == FoldLeft(LAMBDA j, name : Child(S, j, name), i, f)
Find(S, i, path) == LET f == Comps(path) IN IF f = <<>> \/ Len(f) > 32 THEN 0 ELSE Walk(S, i, f)
Leaf(S, i, path) ==      \* <<found, value>>
  LET f == Comps(path)
      j == IF f = <<>> \/ Len(f) > 32 THEN 0 ELSE Walk(S, i, Rng(f, 1, Len(f) - 1))
      I == IF j = 0 THEN {} ELSE { k \in 1..Len(S[j].kv) : S[j].kv[k][1] = f[Len(f)] } IN
  IF I = {} THEN <<0, <<>>>> ELSE <<1, S[j].kv[CHOOSE k \in I : \A m \in I : k <= m][2]>>

Blanks(n) == [i \in 1..n |-> 32]
Dump(S) == FoldLeft(LAMBDA a, x :
     a \o Blanks(4 * x.lv + 1) \o x.name \o <<58, 10>>
       \o FoldLeft(LAMBDA b, kv : b \o Blanks(4 * x.lv + 5) \o kv[1] \o <<61>> \o kv[2] \o <<10>>, <<>>, x.kv), <<>>, S)

\* ---- numbers
B16 == 65536
MulAdd(x, m, c) ==
  LET a4 == x[4] * m + c
      a3 == x[3] * m + (a4 \div B16)
      a2 == x[2] * m + (a3 \div B16)
      a1 == x[1] * m + (a2 \div B16)
  IN <<a1 \div B16, << (a1 % B16), (a2 % B16), (a3 % B16), (a4 % B16) >> >>
Neg(x) == MulAdd([i \in 1..4 |-> 65535 - x[i]], 1, 1)[2]
At(q, i) == IF i <= Len(q) THEN q[i] ELSE 0
Digit(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE 99
RECURSIVE Digits(_, _, _, _)
Digits(q, i, b, x) == IF i > Len(q) \/ Digit(q[i]) >= b THEN [x EXCEPT !.pos = i]
                      ELSE LET p == MulAdd(x.v, b, Digit(q[i])) IN
                           Digits(q, i + 1, b, [x EXCEPT !.v = p[2], !.big = @ \/ p[1] # 0, !.n = @ + 1])
Num(q) == LET i0 == First(q, 1, Space)
              i1 == IF At(q, i0) \in {43, 45} THEN i0 + 1 ELSE i0
              hex == At(q, i1) = 48 /\ At(q, i1 + 1) \in {88, 120} /\ Digit(At(q, i1 + 2)) < 16
              b == IF hex THEN 16 ELSE IF At(q, i1) = 48 THEN 8 ELSE 10 IN
          Digits(q, IF hex THEN i1 + 2 ELSE i1, b, [v |-> <<0, 0, 0, 0>>, n |-> 0, big |-> FALSE, pos |-> 0]) @@ [neg |-> At(q, i0) = 45]
Unit(c) == CASE c \in {75, 107} -> 1 [] c = 77 -> 2 [] c = 71 -> 3 [] c = 84 -> 4 [] c = 80 -> 5 [] c = 69 -> 6 [] OTHER -> 0
RECURSIVE Scale(_, _)
Scale(v, k) == IF k = 0 THEN <<0, v>> ELSE LET p == MulAdd(v, 1024, 0) IN IF p[1] # 0 THEN p ELSE Scale(p[2], k - 1)
IntOk(e) == LET x == Num(e.s)
                top == x.v[1] >= 32768
                fits == ~x.big /\ (~top \/ (x.neg /\ x.v = <<32768, 0, 0, 0>>)) IN
            IF x.n > 0 /\ Blank(Rng(e.s, x.pos, Len(e.s))) /\ fits THEN e.r = 0 /\ e.v = (IF x.neg THEN Neg(x.v) ELSE x.v)
            ELSE e.r < 0
\* what follows the suffix, and negative numbers, are not specified
UintOk(e) == LET x == Num(e.s)
                 c == At(e.s, x.pos)
                 y == Scale(x.v, Unit(c)) IN
             IF x.neg THEN TRUE
             ELSE IF x.n = 0 \/ x.big THEN e.r < 0
             ELSE IF c \notin ({0} \cup Space) /\ Unit(c) = 0 THEN e.r < 0
             ELSE IF Unit(c) # 0 /\ y[1] # 0 THEN e.r < 0
             ELSE IF x.pos + 1 > Len(e.s) \/ Blank(Rng(e.s, x.pos + 1, Len(e.s))) THEN e.r = 0 /\ e.v = y[2]
             ELSE e.r < 0 \/ e.v = y[2]
Low(c) == IF c \in 65..90 THEN c + 32 ELSE c
True(q) == [i \in 1..Len(q) |-> Low(q[i])] \in { <<111, 110>>, <<116, 114, 117, 101>>, <<49>> }

\* ---- the object: the open file's sections
NoFile == [open |-> FALSE, S |-> <<>>]
InitState(c) == [k |-> c.k, f |-> NoFile]
Ok(s, e) ==
  LET S == s.f.S IN
  CASE e.op = "load" ->
         LET p == Parse(e.d) IN
         IF p.bad = "" THEN e.r = 0 /\ e.secs = p.secs
         ELSE IF p.bad = "orphan" THEN e.r = -1
         ELSE IF p.bad = "open" THEN e.r # 0 \/ Len(e.secs) >= Len(p.secs)
         ELSE TRUE
    [] e.op = "close" -> e.r = 0 /\ e.leak = 0
    [] e.op = "sec" -> e.r = (IF ~s.f.open THEN 0 ELSE IF e.p = <<SLASH>> THEN 1 ELSE Find(S, 1, Strip(e.p)))
    [] e.op = "sub" -> e.r = (IF e.from > Len(S) THEN 0 ELSE Find(S, e.from, Strip(e.p)))
    [] e.op = "get" -> <<e.r, e.v>> = (IF s.f.open THEN Leaf(S, 1, Strip(e.p)) ELSE <<0, <<>>>>)
    [] e.op = "sget" -> <<e.r, e.v>> = (IF e.from > Len(S) THEN <<0, <<>>>> ELSE Leaf(S, e.from, Strip(e.p)))
    [] e.op = "dump" -> e.t = Dump(S)
    [] e.op = "int" -> IntOk(e)
    [] e.op = "uint" -> UintOk(e)
    [] e.op = "bool" -> e.r = 0 /\ e.v = (IF True(e.s) THEN 1 ELSE 0)
\* where the text does not determine the tree the tree that was built counts
After(s, e) ==
  CASE e.op = "load" ->
         LET p == Parse(e.d) IN
         IF "secs" \in DOMAIN e THEN [s EXCEPT !.f = [open |-> e.r = 0, S |-> e.secs]]
         ELSE [s EXCEPT !.f = IF p.bad = "" THEN [open |-> TRUE, S |-> p.secs] ELSE NoFile]
    [] e.op = "close" -> [s EXCEPT !.f = NoFile]
    [] OTHER -> s
Events(s) ==
  IF s.k = "file"
  THEN IF ~s.f.open THEN { [op |-> "load", d |-> d] : d \in Files }
       ELSE { [op |-> o, p |-> p] : o \in {"sec", "get"}, p \in Paths }
            \cup { [op |-> o, from |-> i, p |-> p] : o \in {"sub", "sget"}, i \in 1..Len(s.f.S), p \in Paths }
            \cup { [op |-> "dump"], [op |-> "close"] }
  ELSE { [op |-> o, s |-> q] : o \in {"int", "uint", "bool"}, q \in Nums }
Cfgs == { [k |-> k] : k \in Kinds }
Abs(s) == s
\* every section is below the one it is nested in; levels never skip; a section's
\* children are found by their names
Good(s) == \A i \in 1..Len(s.f.S) :
             /\ (i > 1 => s.f.S[i].lv \in 1..(s.f.S[i - 1].lv + 1))
             /\ \A j \in Within(s.f.S, i) : s.f.S[j].lv = s.f.S[i].lv + 1 => Child(s.f.S, i, s.f.S[j].name) \in 1..j
===============================================================================
