--------------------------------- MODULE OptF ---------------------------------
(* getopt and getopt_long (getopt_long.c): the meaning of a command line.      *)
(* Arguments are read from left to right; options are reported one by one,     *)
(* clustered short options separately.  Unless asked otherwise, arguments that *)
(* are no options are moved behind all options, in order; "--" ends the        *)
(* options.  A leading '+' (or POSIXLY_CORRECT) stops at the first argument    *)
(* that is no option, a leading '-' reports it as the argument of option 1.    *)
(* A long option may be shortened as long as it remains unique; an exact name  *)
(* always means itself.                                                        *)
EXTENDS Integers, Sequences, SequencesExt, TLC
CONSTANTS CfgSet, Lines, Whats, Maxes
QM == 63  CO == 58  DASH == 45  EQ == 61  SEMI == 59  WW == 87
Rng(q, a, b) == IF a > b THEN <<>> ELSE SubSeq(q, a, b)
\* long options: <<name, has_arg, flag?, val>>
Sets == << << <<<<102, 111, 111>>, 0, FALSE, 102>>, <<<<102, 111, 111, 98, 97, 114>>, 1, FALSE, 300>>, <<<<102, 111, 98>>, 2, FALSE, 301>>, <<<<120>>, 0, TRUE, 7>> >>,
           << <<<<97, 98, 99>>, 1, FALSE, 310>>, <<<<97, 98, 99, 100>>, 0, TRUE, 9>>, <<<<97, 98>>, 0, FALSE, 311>>, <<<<98>>, 1, TRUE, 5>> >> >>
Argv(d) == LET z == FoldLeft(LAMBDA a, c : IF c = 0 THEN [out |-> Append(a.out, a.cur), cur |-> <<>>] ELSE [a EXCEPT !.cur = Append(@, c)], [out |-> <<>>, cur |-> <<>>], d)
           IN IF z.cur = <<>> THEN z.out ELSE Append(z.out, z.cur)
Flat(v) == FoldLeft(LAMBDA a, x : a \o x \o <<0>>, <<>>, v)
At(q, i) == IF i \in 1..Len(q) THEN q[i] ELSE 0
PlusMinus(o) == At(o, 1) \in {43, 45}
Body(o) == IF PlusMinus(o) THEN Rng(o, 2, Len(o)) ELSE o
\* what a missing argument is reported as
Miss(o) == IF At(Body(o), 1) = CO THEN CO ELSE QM
Posn(o, ch) == LET b == Body(o)
                   I == { i \in 1..Len(b) : b[i] = ch } IN
               IF ch = CO \/ I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j
Wants(o, ch) == LET b == Body(o)
                    p == Posn(o, ch) IN IF At(b, p + 1) # CO THEN 0 ELSE IF At(b, p + 2) # CO THEN 1 ELSE 2
LongSet(c) == IF "S" \in DOMAIN c THEN c.S ELSE Sets[c.L]
None == <<0, <<>>>>
Arg(a) == <<1, a>>
Res(r, oo, idx, a) == <<r, oo, idx, a[1]>> \o a[2]

\* parsing state: i next argument, cl what is left of a cluster, opts / nons the
\* arguments consumed as options and the others, res the reports so far
Start == [i |-> 1, cl |-> <<>>, opts |-> <<>>, nons |-> <<>>, res |-> <<>>, end |-> FALSE]
\* long option text t (after the dashes) already consumed; av: arguments after it
Long(x, c, v, t) ==
  LET E == { k \in 1..Len(t) : t[k] = EQ }
      p == IF E = {} THEN 0 ELSE CHOOSE k \in E : \A j \in E : k <= j
      name == IF p = 0 THEN t ELSE Rng(t, 1, p - 1)
      S == LongSet(c)
      exact == { k \in 1..Len(S) : S[k][1] = name }
      part == { k \in 1..Len(S) : Len(S[k][1]) > Len(name) /\ SubSeq(S[k][1], 1, Len(name)) = name }
      fit == IF exact # {} THEN exact ELSE part IN
  IF fit = {} \/ \A k \in fit : \E j \in fit : j # k
  THEN [x EXCEPT !.res = Append(@, Res(QM, 0, -1, None))]
  ELSE LET k == CHOOSE k \in fit : TRUE
           o == S[k]
           Ret(a) == IF o[3] THEN Res(0, o[4], k - 1, a) ELSE Res(o[4], 0, k - 1, a)
           Bad == Res(Miss(c.o), IF o[3] THEN 0 ELSE o[4], -1, None) IN
       IF o[2] = 0 THEN [x EXCEPT !.res = Append(@, IF p = 0 THEN Ret(None) ELSE Bad)]
       ELSE IF p # 0 THEN [x EXCEPT !.res = Append(@, Ret(Arg(Rng(t, p + 1, Len(t)))))]
       ELSE IF o[2] = 2 THEN [x EXCEPT !.res = Append(@, Ret(None))]
       ELSE IF x.i > Len(v) THEN [x EXCEPT !.res = Append(@, Bad)]
       ELSE [x EXCEPT !.i = @ + 1, !.opts = Append(@, v[x.i]), !.res = Append(@, Ret(Arg(v[x.i])))]
\* next short option of a cluster (its argument is already among the options)
Short(x, c, v, long) ==
  LET ch == x.cl[1]
      rest == Rng(x.cl, 2, Len(x.cl))
      w == Wants(c.o, ch)
      nx == [x EXCEPT !.cl = <<>>]
      Eat == [nx EXCEPT !.i = @ + 1, !.opts = Append(@, v[x.i])] IN
  IF Posn(c.o, ch) = 0 THEN [x EXCEPT !.cl = rest, !.res = Append(@, Res(QM, ch, -1, None))]
  ELSE IF long /\ ch = WW /\ At(Body(c.o), Posn(c.o, WW) + 1) = SEMI
       THEN IF rest # <<>> THEN Long(nx, c, v, rest)
            ELSE IF x.i > Len(v) THEN [nx EXCEPT !.res = Append(@, Res(Miss(c.o), WW, -1, None))]
            ELSE Long(Eat, c, v, v[x.i])
  ELSE IF w = 0 THEN [x EXCEPT !.cl = rest, !.res = Append(@, Res(ch, 0, -1, None))]
  ELSE IF rest # <<>> THEN [nx EXCEPT !.res = Append(@, Res(ch, 0, -1, Arg(rest)))]
  ELSE IF w = 2 THEN [nx EXCEPT !.res = Append(@, Res(ch, 0, -1, None))]
  ELSE IF x.i > Len(v) THEN [nx EXCEPT !.res = Append(@, Res(Miss(c.o), ch, -1, None))]
  ELSE [Eat EXCEPT !.res = Append(@, Res(ch, 0, -1, Arg(v[x.i])))]
Stops(c) == c.posix = 1 \/ At(c.o, 1) = 43
InOrder(c) == c.posix = 0 /\ At(c.o, 1) = 45
Step(x, c, v, long) ==
  IF x.cl # <<>> THEN Short(x, c, v, long)
  ELSE IF x.i > Len(v) THEN [x EXCEPT !.end = TRUE]
  ELSE LET a == v[x.i]
           y == [x EXCEPT !.i = @ + 1] IN
       IF At(a, 1) # DASH \/ Len(a) = 1
       THEN IF InOrder(c) THEN [y EXCEPT !.opts = Append(@, a), !.res = Append(@, Res(1, 0, -1, Arg(a)))]
            ELSE IF Stops(c) \/ At(c.o, 1) = 45 THEN [x EXCEPT !.end = TRUE]
            ELSE [y EXCEPT !.nons = Append(@, a)]
       ELSE IF a[2] = DASH
            THEN IF Len(a) = 2 THEN [y EXCEPT !.opts = Append(@, a), !.end = TRUE]
                 ELSE Long([y EXCEPT !.opts = Append(@, a)], c, v, Rng(a, 3, Len(a)))
       ELSE [y EXCEPT !.opts = Append(@, a), !.cl = Rng(a, 2, Len(a))]
\* every step uses up at least a character
Steps(v) == FoldLeft(LAMBDA n, a : n + Len(a) + 1, 2, v)
Run(x0, c, v, long, max) == FoldLeft(LAMBDA x, i : IF x.end \/ Len(x.res) >= max THEN x ELSE Step(x, c, v, long), x0, [i \in 1..Steps(v) |-> i])

InitState(c) == c
Ok(s, e) ==
  LET v == Argv(e.d)
      x == Run(Start, s, v, e.op = "long", e.max) IN
  /\ e.res = x.res
  /\ e.done = (IF x.end THEN 1 ELSE 0)
  /\ x.end => /\ e.ind = Len(x.opts) + 1
              /\ e.argv = Flat(x.opts \o x.nons \o Rng(v, x.i, Len(v)))
After(s, e) == s
Events(s) == { [op |-> w, d |-> d, max |-> m, how |-> h] : w \in Whats, d \in Lines, m \in Maxes, h \in {0, 1} }
Cfgs == CfgSet
Abs(s) == s
\* nothing is lost or made up: every argument is an option, its argument, or left
GoodLine(s, d, w) == LET v == Argv(d)
                         x == Run(Start, s, v, w = "long", 1000)
                         y == x.opts \o x.nons \o Rng(v, x.i, Len(v)) IN
                     \A a \in { v[i] : i \in 1..Len(v) } : Len(SelectSeq(y, LAMBDA b : b = a)) = Len(SelectSeq(v, LAMBDA b : b = a))
Good(s) == TRUE
===============================================================================
