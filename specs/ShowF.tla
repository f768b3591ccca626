-------------------------------- MODULE ShowF ---------------------------------
(* What is shown to people: sizes in binary units, hex dumps, progress bars.       *)
(* A terminal is a sequence of bytes written so far; it is observed per call.       *)
EXTENDS Word, FiniteSets, TLC, SequencesExt
CONSTANTS Sizes, Bufs, Datas, Kinds, Cols, Totals, Incs

\* ---- decimal numbers from 64-bit words
DivS(x, k) == \* [q, r] for small k
  LET r1 == x[1] % k
      t2 == r1 * 65536 + x[2]  r2 == t2 % k
      t3 == r2 * 65536 + x[3]  r3 == t3 % k
      t4 == r3 * 65536 + x[4]
  IN [q |-> << x[1] \div k, t2 \div k, t3 \div k, t4 \div k >>, r |-> t4 % k]
RECURSIVE Dec(_)
Dec(x) == LET d == DivS(x, 10) IN IF d.q = Zero THEN <<48 + d.r>> ELSE Dec(d.q) \o <<48 + d.r>>
LeW(a, b) == \* a <= b
  \/ a = b
  \/ \E i \in 1..4 : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
\* products with small numbers, five limbs; and their order
MulS(x, k) ==
  LET p4 == x[4] * k  p3 == x[3] * k + p4 \div 65536  p2 == x[2] * k + p3 \div 65536  p1 == x[1] * k + p2 \div 65536
  IN << p1 \div 65536, p1 % 65536, p2 % 65536, p3 % 65536, p4 % 65536 >>
Le5(a, b) == a = b \/ \E i \in 1..5 : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]

\* ---- sizes
Unit == << <<32, 98, 121, 116, 101, 115>>, <<32, 107, 66>>, <<32, 77, 66>>, <<32, 71, 66>>, <<32, 84, 66>>, <<32, 80, 66>>, <<32, 69, 66>> >>
Two(n) == <<48 + n \div 10, 48 + (n % 10)>>
\* the remainder below unit u, in hundredths (rounded down), and whether it is zero
Rem(x, u) == XorW(x, Shl(Shr(x, 10 * u), 10 * u))
\* the remainder reduced to its top 20 bits is not enough for exact hundredths: two decimal digits, one at a time
Hund(x, u) ==
  LET m == Rem(x, u)
      \* 10 m fits: m < 2^60
      t == MulW(m, W(10))  d1 == Shr(t, 10 * u)  r == XorW(t, Shl(d1, 10 * u))
      t2 == MulW(r, W(10)) d2 == Shr(t2, 10 * u)
  IN d1[4] * 10 + d2[4]
InUnit(x, u) ==
  IF u = 0 THEN { Dec(x) \o Unit[1] }
  ELSE LET n == Dec(Shr(x, 10 * u)) h == Hund(x, u) z == Rem(x, u) = Zero IN
       (IF h = 0 THEN { n \o Unit[u + 1] } ELSE {})
       \cup { n \o <<46>> \o Two(h) \o Unit[u + 1] }
Pow(u) == Shl(One, 10 * u)
\* the units one may use: the largest not above the size (an exact multiple may stay in the next smaller one)
UnitsFor(x) == { u \in 0..6 : (u = 0 \/ LeW(Pow(u), x)) /\ (u = 6 \/ LeW(x, Pow(u + 1))) }
Human(x) == UNION { InUnit(x, u) : u \in UnitsFor(x) }
Cut(q, n) == IF Len(q) <= n THEN q ELSE SubSeq(q, 1, n)

\* ---- hex dump lines
Hx(n) == IF n < 10 THEN 48 + n ELSE 87 + n
HexB(b) == <<Hx(b \div 16), Hx(b % 16)>>
Hex16(x) == HexB(x[1] \div 256) \o HexB(x[1] % 256) \o HexB(x[2] \div 256) \o HexB(x[2] % 256) \o HexB(x[3] \div 256) \o HexB(x[3] % 256) \o HexB(x[4] \div 256) \o HexB(x[4] % 256)
Blank(n) == [i \in 1..n |-> 32]
Cat(qs) == FlattenSeq(qs)
\* offset, two blanks, hex columns (a wider gap after the eighth), text between bars, in the columns of hexdump -C
Line(off, q) ==
  LET hex == Cat([i \in 1..Len(q) |-> HexB(q[i]) \o (IF i = 8 THEN <<32, 32>> ELSE <<32>>)])
      asc == [i \in 1..Len(q) |-> IF q[i] \in 32..126 THEN q[i] ELSE 46]
  IN Hex16(off) \o <<32, 32>> \o hex \o Blank(51 - Len(hex)) \o <<124>> \o asc \o <<124, 10>>
NLines(q) == (Len(q) + 15) \div 16
Piece(q, i) == SubSeq(q, 16 * i - 15, IF 16 * i > Len(q) THEN Len(q) ELSE 16 * i)
Lines(q, base) == [i \in 1..NLines(q) |-> Line(AddW(base, W(16 * (i - 1))), Piece(q, i))]

\* ---- progress bar: [tty, cur, total, human, cols, shown, drawn]
Pct(s) == CHOOSE p \in 0..100 : IF LeW(s.total, s.cur) THEN p = 100 ELSE Le5(MulS(s.total, p), MulS(s.cur, 100)) /\ ~ Le5(MulS(s.total, p + 1), MulS(s.cur, 100))
\* a percentage may be computed from rounded numbers when 100 times the exact ones needs more than 64 bits
Pcts(s) == IF s.cur[1] < 512 THEN { Pct(s) } ELSE { Pct(s) - 1, Pct(s), Pct(s) + 1 } \cap 0..100
Txt(s, x) == IF s.human THEN Human(x) ELSE { Dec(x) }   \* the possible texts of a number
PadR(q, n) == IF Len(q) >= n THEN q ELSE q \o Blank(n - Len(q))
PadL(q, n) == IF Len(q) >= n THEN q ELSE Blank(n - Len(q)) \o q
\* text is: numbers, " [", o's, dots, "] ", percentage, "%"
GoodBar(s, t, wid) ==
  LET P1 == IF s.human THEN Human(s.cur) ELSE { PadL(Dec(s.cur), 5) }
      P2 == IF s.human THEN Human(s.total) ELSE { PadL(Dec(s.total), 5) }
      Pre == { PadR(PadR(a, 6) \o <<47>> \o PadL(b, 6), 20) \o <<32, 91>> : a \in P1, b \in P2 }
      Post(p) == <<93, 32>> \o Dec(W(p)) \o <<37>>
  IN \E q \in Pre : \E p \in Pcts(s) : \E f \in 0..wid :
       /\ Len(t) = Len(q) + wid + Len(Post(p))
       /\ t = q \o [i \in 1..f |-> 111] \o [i \in 1..(wid - f) |-> 46] \o Post(p)
       /\ (p = 100 => f = wid) /\ (p = 0 => f = 0)
       /\ (f * 100 <= p * wid + 100) /\ (p * wid <= f * 100 + 100)
GoodCount(s, t) == \E a \in Txt(s, s.cur) : t = PadR(a, 20) \o <<32, 46, 46, 46>>
Clr == <<27, 91, 50, 75, 13>>

InitState(c) == IF c.k = "bar" THEN [k |-> "bar", tty |-> FALSE, cur |-> Zero, total |-> Zero, human |-> FALSE, cols |-> 0, wid |-> -1, shown |-> <<>>, drawn |-> FALSE]
                ELSE [k |-> c.k, on |-> FALSE, ptr |-> FALSE, off |-> Zero]
Cfgs == { [k |-> k] : k \in Kinds }
\* what a bar on a terminal of n columns may use
MaxWid(n) == IF n > 50 THEN 50 ELSE n
Bumped(s, e) == [s EXCEPT !.cur = AddW(s.cur, e.inc)]
Body(s, e) == IF s.drawn THEN SubSeq(e.out, 6, Len(e.out)) ELSE e.out
Ok(s, e) ==
  CASE e.op = "size" -> e.same = 1 /\ e.over = 0 /\ (e.n > 0 => \E t \in Human(e.x) : e.t = Cut(t, e.n - 1))
    [] e.op = "hinit" -> e.r = 0
    [] e.op = "hclose" -> e.r = 0
    [] e.op = "hwrite" ->   \* the writer fails with -err at call number fail (0: never)
         LET calls == IF e.fail > 0 /\ e.fail <= NLines(e.d) THEN e.fail ELSE NLines(e.d)
         IN /\ e.r = (IF e.fail > 0 /\ e.fail <= NLines(e.d) THEN 0 - e.err ELSE 0)
            /\ \E base \in (IF s.ptr THEN {e.base} ELSE {Zero, s.off}) : e.o = SubSeq(Lines(e.d, base), 1, calls)
    [] e.op = "file" -> e.r = 0 /\ e.t = Cat(Lines(e.d, Zero))
    [] e.op = "full" -> IF e.d = <<>> THEN e.r = 0 ELSE e.r < 0
    [] e.op = "open" -> e.r = 0 /\ e.out = <<>>
    [] e.op = "upd" ->
         IF ~ s.tty THEN e.out = <<>>
         ELSE LET z == Bumped(s, e) b == Body(s, e)
              IN \/ e.out = <<>> /\ (IF z.total = Zero THEN GoodCount(z, s.shown) ELSE s.wid >= 0 /\ GoodBar(z, s.shown, s.wid))
                 \/ /\ e.out # <<>>
                    /\ (s.drawn => Cut(e.out, 5) = Clr)
                    /\ IF z.total = Zero THEN GoodCount(z, b)
                       ELSE \E w \in (IF s.wid >= 0 THEN {s.wid} ELSE 1..50) : GoodBar(z, b, w) /\ w <= 50
    [] e.op = "finish" -> e.out = (IF ~ s.tty THEN <<>> ELSE (IF e.clr > 0 THEN Clr ELSE <<>>) \o (IF e.nl > 0 THEN <<10>> ELSE <<>>))
WidOf(z, b) == IF z.total = Zero THEN -1 ELSE CHOOSE w \in 1..50 : GoodBar(z, b, w)
After(s, e) ==
  CASE e.op = "hinit" -> [s EXCEPT !.on = TRUE, !.ptr = (e.fl % 2) = 1, !.off = Zero]
    [] e.op = "hclose" -> [s EXCEPT !.on = FALSE, !.off = Zero]
    [] e.op = "hwrite" -> [s EXCEPT !.off = AddW(@, W(Len(e.d)))]
    [] e.op = "open" -> [InitState([k |-> "bar"]) EXCEPT !.tty = e.tty = 1, !.total = e.total, !.human = e.human = 1, !.cols = e.cols]
    [] e.op = "upd" ->
         IF ~ s.tty THEN s
         ELSE LET z == Bumped(s, e) IN
              IF "out" \in DOMAIN e
              THEN IF e.out = <<>> THEN z ELSE [z EXCEPT !.shown = Body(s, e), !.drawn = TRUE, !.wid = IF s.wid >= 0 THEN s.wid ELSE WidOf(z, Body(s, e))]
              ELSE [z EXCEPT !.drawn = TRUE]
    [] e.op = "finish" -> IF s.tty THEN [s EXCEPT !.cur = Zero, !.shown = <<>>] ELSE s
    [] OTHER -> s
Events(s) ==
  CASE s.k = "size" -> { [op |-> "size", x |-> x, n |-> n] : x \in Sizes, n \in Bufs }
    [] s.k = "hex" -> { [op |-> "file", d |-> d] : d \in Datas } \cup { [op |-> "full", d |-> d] : d \in Datas }
         \cup { [op |-> "hinit", fl |-> f] : f \in {0, 1} }
         \cup (IF s.on THEN { [op |-> "hclose"] } \cup { [op |-> "hwrite", d |-> d, fail |-> f, err |-> 5 + f] : d \in Datas, f \in 0..2 } ELSE {})
    [] s.k = "bar" ->
         { [op |-> "open", tty |-> t, cols |-> c, total |-> n, human |-> h] : t \in {0, 1}, c \in Cols, n \in Totals, h \in {0, 1} }
         \cup { [op |-> "upd", inc |-> i] : i \in Incs }
         \cup { [op |-> "finish", clr |-> a, nl |-> b] : a \in {0, 1}, b \in {0, 1} }
Abs(s) == s
Good(s) == TRUE
===============================================================================
