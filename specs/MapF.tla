---------------------------------- MODULE MapF ----------------------------------
(* Memory mapped files: what is seen through mappings is the file, requests are   *)
(* kept inside it (or grow it, if asked to), everything is released in the end.   *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS CfgSet, Flags, Fails, Sizes, Offs, Pg
\* n: size of the file (-1: there is none); at, v: its bytes that are not zero
Cfgs == CfgSet
CREATE(fl) == fl % 2 = 1
RDWR(fl) == (fl \div 2) % 2 = 1
SHARED(fl) == (fl \div 4) % 2 = 1
InitState(c) == [n |-> c.n, f |-> [o \in { c.at[i] : i \in 1..Len(c.at) } |-> LET i == CHOOSE i \in 1..Len(c.at) : c.at[i] = o IN c.v[i]],
                 open |-> FALSE, flags |-> 0, maps |-> <<>>, ids |-> 0]
Down(x) == (x \div Pg) * Pg
Up(x) == Down(x + Pg - 1)
\* the mapping of exactly these bytes, if there is one already
Same(s, off, n) == { i \in 1..Len(s.maps) : s.maps[i].off = off /\ s.maps[i].n = n }
Idx(s, id) == { i \in 1..Len(s.maps) : s.maps[i].id = id }
Mapping(s, id) == LET i == CHOOSE i \in Idx(s, id) : TRUE IN s.maps[i]
Off(s, e) == IF e.op = "all" THEN 0 ELSE e.off
Num(s, e) == IF e.op = "all" THEN s.n ELSE e.n
\* what becomes of a request to map: "same", "new", "bounds", "grow" (then new), "system"
Fate(s, e) ==
  LET off == Off(s, e)
      n == Num(s, e) IN
  CASE Same(s, off, n) # {} -> "same"
    [] off + n > s.n /\ ~CREATE(s.flags) -> "bounds"
    [] off + n > s.n /\ (~RDWR(s.flags) \/ e.fail = 2) -> "nogrow"
    [] n = 0 \/ off % Pg # 0 \/ e.fail = 1 -> "system"
    [] OTHER -> "new"
After(s, e) ==
  CASE e.op = "open" -> IF s.n >= 0 /\ e.fail = 0 THEN [s EXCEPT !.open = TRUE, !.flags = e.flags] ELSE s
    [] e.op \in {"map", "all"} ->
         LET off == Off(s, e)
             n == Num(s, e)
             big == IF off + n > s.n THEN off + n ELSE s.n
             x == Fate(s, e) IN
         CASE x = "new" -> [s EXCEPT !.n = big, !.ids = @ + 1, !.maps = Append(@, [id |-> s.ids + 1, off |-> off, n |-> n])]
           [] x = "system" -> [s EXCEPT !.n = IF "disk" \in DOMAIN e THEN e.disk ELSE big]
           [] OTHER -> s
    [] e.op = "write" -> LET m == Mapping(s, e.id) IN
         IF e.v = 0 THEN [s EXCEPT !.f = [o \in DOMAIN @ \ {m.off + e.off} |-> @[o]]]
         ELSE [s EXCEPT !.f = [o \in DOMAIN @ \cup {m.off + e.off} |-> IF o = m.off + e.off THEN e.v ELSE @[o]]]
    [] e.op = "unmap" -> [s EXCEPT !.maps = SelectSeq(@, LAMBDA m : m.id # e.id)]
    [] e.op = "close" -> [s EXCEPT !.open = FALSE, !.maps = <<>>]
    [] OTHER -> s
RECURSIVE Total(_)
Total(ms) == IF ms = <<>> THEN 0 ELSE Up(Head(ms).n) + Total(Tail(ms))
Is(f, at, v) == Len(at) = Cardinality(DOMAIN f) /\ \A i \in 1..Len(at) : at[i] \in DOMAIN f /\ f[at[i]] = v[i]
Part(f, off, n) == [o \in { o - off : o \in { o \in DOMAIN f : off <= o /\ o < off + n } } |-> f[o + off]]
\* a refusal names the file, and the system's reason if the system refused
Refused(e, err) == e.r = -1 /\ e.err = err /\ e.named = 1
System(e) == e.r = -1 /\ e.err > 0 /\ e.named = 1 /\ e.reason = 1
Ok(s, e) ==
  LET t == After(s, e) IN
  /\ e.disk = t.n /\ Is(t.f, e.at, e.val) /\ e.live = Total(t.maps) /\ e.fds = (IF t.open THEN 1 ELSE 0)
  /\ t.open => e.size = t.n
  /\ CASE e.op = "open" -> IF s.n < 0 \/ e.fail # 0 THEN System(e) ELSE e.r = 0
       [] e.op \in {"map", "all"} ->
            CASE Fate(s, e) = "same" -> e.r = 0 /\ e.got = s.maps[CHOOSE i \in Same(s, Off(s, e), Num(s, e)) : TRUE].id
              [] Fate(s, e) = "new" -> e.r = 0 /\ e.got = s.ids + 1
              [] Fate(s, e) = "bounds" -> Refused(e, 0)
              [] Fate(s, e) = "nogrow" -> System(e)
              [] OTHER -> System(e) /\ e.disk \in {s.n, IF Off(s, e) + Num(s, e) > s.n THEN Off(s, e) + Num(s, e) ELSE s.n}
       [] e.op = "far" -> e.r = -1 /\ e.named = 1
       [] e.op = "read" -> LET m == Mapping(s, e.id) IN Is(Part(s.f, m.off, m.n), e.mat, e.mval)
       [] e.op \in {"lock", "unlock"} -> IF e.fail = 0 THEN e.r = 0 /\ e.from = Down(e.off) /\ e.len = Up(e.n) ELSE System(e)
       [] OTHER -> e.r = 0
Events(s) ==
  IF ~s.open THEN { [op |-> "open", flags |-> fl, fail |-> x] : fl \in Flags, x \in Fails }
  ELSE { [op |-> "map", off |-> o, n |-> n, fail |-> x] : o \in Offs, n \in Sizes, x \in Fails } \cup { [op |-> "all", fail |-> 0], [op |-> "close"] }
       \cup { [op |-> "far", k |-> k] : k \in 0..3 }
       \cup { [op |-> "unmap", id |-> s.maps[i].id] : i \in 1..Len(s.maps) } \cup { [op |-> "unmap", id |-> 0] }
       \cup { [op |-> "read", id |-> s.maps[i].id] : i \in 1..Len(s.maps) }
       \cup (IF ~(RDWR(s.flags) /\ SHARED(s.flags)) THEN {} ELSE { [op |-> "write", id |-> s.maps[i].id, off |-> s.maps[i].n - 1, v |-> v] : i \in 1..Len(s.maps), v \in {0, 7} })
       \cup { [op |-> "lock", id |-> s.maps[i].id, off |-> 5, n |-> 10, fail |-> x] : i \in 1..Len(s.maps), x \in Fails \cap {0, 1} }
Abs(s) == s
\* mappings lie inside the file and no two cover exactly the same bytes; bytes written lie inside the file
Good(s) == /\ \A i \in 1..Len(s.maps) : s.maps[i].off % Pg = 0 /\ s.maps[i].n > 0 /\ s.maps[i].off + s.maps[i].n <= s.n
           /\ \A i, j \in 1..Len(s.maps) : i # j => (s.maps[i].off # s.maps[j].off \/ s.maps[i].n # s.maps[j].n) /\ s.maps[i].id # s.maps[j].id
           /\ \A o \in DOMAIN s.f : o < s.n
           /\ s.open \/ s.maps = <<>>
=================================================================================
