---------------------------------- MODULE AddrF ----------------------------------
(* Addresses of interfaces and hosts: every interface once with all its addresses *)
(* of the wanted kinds, names resolved in the documented order, failures reported *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS CfgSet, Names, Masks, Answers
INET == 2
INET6 == 10
LINK == 17
\* ifs: what the system reports, in its order: [nm, fam (0: no address), a, fl]
Cfgs == CfgSet
InitState(c) == [ifs |-> c.ifs]
Z(n) == [i \in 1..n |-> 0]
Addr(fam, a) == CASE fam = INET -> <<10, 9, 8, a>> [] fam = INET6 -> <<254, 128>> \o Z(13) \o <<a>> [] OTHER -> <<2, 0, 0, 0, 1, a>>
Scope(fam, a) == IF fam = INET6 THEN a ELSE 0
Entry(fam, a, fl) == <<fam, fl, Scope(fam, a)>> \o Addr(fam, a)
Bit(m, b) == (m \div b) % 2 = 1
Wanted(fam, mask) == LET m == IF mask = 0 THEN 3 ELSE mask IN
  CASE fam = INET -> Bit(m, 1) [] fam = INET6 -> Bit(m, 2) [] fam = LINK -> Bit(m, 4) [] OTHER -> FALSE
Count(q, x) == Cardinality({ i \in 1..Len(q) : q[i] = x })
SameBag(p, q) == Len(p) = Len(q) /\ \A i \in 1..Len(p) : Count(p, p[i]) = Count(q, p[i])
RECURSIVE Of(_, _, _)
Of(ifs, nm, mask) == IF ifs = <<>> THEN <<>> ELSE
  LET x == Head(ifs) IN (IF x.nm = nm /\ Wanted(x.fam, mask) THEN <<Entry(x.fam, x.a, x.fl)>> ELSE <<>>) \o Of(Tail(ifs), nm, mask)
NamesOf(ifs, mask) == { ifs[i].nm : i \in { i \in 1..Len(ifs) : Wanted(ifs[i].fam, mask) } }
IsIf(ifs, nm) == \E i \in 1..Len(ifs) : ifs[i].nm = nm
RECURSIVE Answer(_, _)
Answer(g, mask) == IF g = <<>> THEN <<>> ELSE (IF Wanted(g[1], mask) THEN <<Entry(g[1], g[2], 0)>> ELSE <<>>) \o Answer(SubSeq(g, 3, Len(g)), mask)
STAR == 42
DOT == 46
Digit(c) == 48 <= c /\ c <= 57
\* dotted decimal numbers (the only numeric names asked for here)
RECURSIVE Octets(_, _)
Octets(n, v) == IF n = <<>> THEN <<v>> ELSE IF Head(n) = DOT THEN <<v>> \o Octets(Tail(n), 0) ELSE Octets(Tail(n), v * 10 + Head(n) - 48)
Numeric(n) == n # <<>> /\ \A i \in 1..Len(n) : Digit(n[i]) \/ n[i] = DOT
OneIf(s, e) == IF ~IsIf(s.ifs, e.name) THEN e.r = -2 ELSE IF e.fail # 0 THEN e.r = -e.fail ELSE e.r = 0 /\ SameBag(e.as, Of(s.ifs, e.name, e.mask))
Hex(d) == IF d < 10 THEN 48 + d ELSE 87 + d
RECURSIVE Mac(_)
Mac(b) == <<Hex(b[1] \div 16), Hex(b[1] % 16)>> \o (IF Len(b) = 1 THEN <<>> ELSE <<58>> \o Mac(Tail(b)))
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
Dotted(b) == Dec(b[1]) \o <<DOT>> \o Dec(b[2]) \o <<DOT>> \o Dec(b[3]) \o <<DOT>> \o Dec(b[4])
Unknown(f) == <<117,110,107,110,111,119,110,45,65,70,32>> \o Dec(f)
Min2(a, b) == IF a < b THEN a ELSE b
Text(e) ==
  LET t == CASE e.fam = INET -> Dotted(e.b) [] e.fam = LINK -> Mac(e.b) [] e.fam = INET6 -> e.std [] OTHER -> Unknown(e.fam) IN
  IF Len(t) < e.cap THEN e.null = 0 /\ e.out = t
  ELSE IF e.fam \in {INET, INET6, LINK} THEN e.null = 1
  ELSE e.null = 1 \/ e.out = SubSeq(t, 1, e.cap - 1)
Ok(s, e) ==
  /\ e.kept = 0
  /\ CASE e.op = "all" ->
            IF e.fail # 0 THEN e.r = -e.fail
            ELSE /\ e.r = 0 /\ Len(e.ifs) = Cardinality(NamesOf(s.ifs, e.mask))
                 /\ \A i, j \in 1..Len(e.ifs) : i # j => e.ifs[i].nm # e.ifs[j].nm
                 /\ \A i \in 1..Len(e.ifs) : e.ifs[i].nm \in NamesOf(s.ifs, e.mask) /\ SameBag(e.ifs[i].as, Of(s.ifs, e.ifs[i].nm, e.mask))
       [] e.op = "one" -> OneIf(s, e)
       [] e.op = "host" ->
            CASE e.name = <<>> \/ e.name = <<STAR>> -> e.r = 0 /\ e.as = << <<INET, 0, 0, 0, 0, 0, 0>> >>
              [] Numeric(e.name) -> e.r = 0 /\ e.as = << <<INET, 0, 0>> \o Octets(e.name, 0) >>
              [] IsIf(s.ifs, e.name) /\ e.fail = 0 -> e.r = 0 /\ SameBag(e.as, Of(s.ifs, e.name, e.mask))
              [] OTHER -> IF e.rc = 0 THEN e.r = 0 /\ e.as = Answer(e.g, e.mask) ELSE e.r < 0 /\ (e.rc = -11 => e.r = -e.er)
       [] e.op = "text" -> Text(e)
After(s, e) == s
Events(s) == { [op |-> "all", mask |-> m, fail |-> x] : m \in Masks, x \in {0, 12} }
             \cup { [op |-> "one", name |-> n, mask |-> m, fail |-> x] : n \in Names, m \in Masks, x \in {0, 12} }
             \cup { [op |-> "host", name |-> n, mask |-> m, g |-> a.g, rc |-> a.rc, er |-> a.er, fail |-> 0] : n \in Names, m \in Masks, a \in Answers }
Abs(s) == s
Good(s) == TRUE
==================================================================================
