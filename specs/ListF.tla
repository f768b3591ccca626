-------------------------------- MODULE ListF --------------------------------
(* Linked lists as sequences: two lists f, g (l = 0, 1) over a pool of        *)
(* elements.  k = 0 singly linked, 1 doubly linked (list.h), 2 circular       *)
(* list_head, 3 hlist (llist.h).  Each event reports forward and backward     *)
(* traversals of both lists and whether head/tail/empty reports agree.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Kinds, Els
Cfgs == { [k |-> k] : k \in Kinds }
InitState(c) == [k |-> c.k, q |-> <<<<>>, <<>>>>]
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Mem(q) == { q[i] : i \in 1..Len(q) }
Pos(q, x) == CHOOSE i \in 1..Len(q) : q[i] = x
Del(q, x) == SelectSeq(q, LAMBDA y : y # x)
InsAt(q, i, x) == SubSeq(q, 1, i - 1) \o <<x>> \o SubSeq(q, i, Len(q))   \* x becomes element i
After(s, e) ==
  LET i == e.l + 1 j == 2 - e.l q == s.q[i] p == s.q[j] x == e.x y == e.y
      Set(v) == [s EXCEPT !.q[i] = v]
      DelAll(t) == [t EXCEPT !.q = <<Del(t.q[1], x), Del(t.q[2], x)>>] IN
  CASE e.op = "head" -> Set(<<x>> \o q)
    [] e.op \in {"tail", "app"} -> Set(Append(q, x))
    [] e.op = "after" -> Set(InsAt(q, Pos(q, y) + 1, x))
    [] e.op = "before" -> Set(InsAt(q, Pos(q, y), x))
    [] e.op \in {"rm", "rminit"} -> Set(Del(q, x))
    [] e.op = "rmhead" -> Set(IF q = <<>> THEN q ELSE Tail(q))
    [] e.op = "rmtail" -> Set(IF q = <<>> THEN q ELSE SubSeq(q, 1, Len(q) - 1))
    [] e.op \in {"repl", "replinit"} -> Set([n \in 1..Len(q) |-> IF q[n] = y THEN x ELSE q[n]])
    [] e.op = "mvhead" -> LET t == DelAll(s) IN [t EXCEPT !.q[i] = <<x>> \o @]
    [] e.op = "mvtail" -> LET t == DelAll(s) IN [t EXCEPT !.q[i] = Append(@, x)]
    [] e.op = "rot" -> Set(IF q = <<>> THEN q ELSE Append(Tail(q), Head(q)))
    [] e.op = "cut" -> [s EXCEPT !.q[i] = SubSeq(q, Pos(q, x) + 1, Len(q)), !.q[j] = SubSeq(q, 1, Pos(q, x))]
    [] e.op \in {"cat", "cat2"} -> [s EXCEPT !.q[i] = q \o p, !.q[j] = <<>>]
    [] e.op \in {"precat", "precat2"} -> [s EXCEPT !.q[i] = p \o q, !.q[j] = <<>>]
    [] e.op = "moveall" -> IF q = <<>> THEN [s EXCEPT !.q[i] = p, !.q[j] = <<>>] ELSE s
Ret(s, e) == LET q == s.q[e.l + 1] IN
  CASE e.op = "rmhead" /\ s.k = 1 -> IF q = <<>> THEN -1 ELSE q[1]
    [] e.op = "rmtail" -> IF q = <<>> THEN -1 ELSE q[Len(q)]
    [] OTHER -> -1
Ok(s, e) ==
  LET t == After(s, e) IN
  /\ e.r = Ret(s, e)
  /\ e.f = t.q[1] /\ e.g = t.q[2] /\ e.fb = Rev(t.q[1]) /\ e.gb = Rev(t.q[2])
  /\ e.okf = 1 /\ e.okg = 1
O(op, l, x, y) == [op |-> op, l |-> l, x |-> x, y |-> y]
Events(s) ==
  UNION { LET q == s.q[l + 1] out == Els \ (Mem(s.q[1]) \cup Mem(s.q[2])) all == Mem(s.q[1]) \cup Mem(s.q[2])
              x0 == IF out = {} THEN {} ELSE {CHOOSE x \in out : \A y \in out : x <= y} IN
    { O("head", l, x, -1) : x \in x0 }
    \cup (IF s.k \in {1, 2} THEN { O("tail", l, x, -1) : x \in x0 } ELSE {})
    \cup (IF s.k = 1 THEN { O("app", l, x, -1) : x \in x0 } ELSE {})
    \cup { O("after", l, x, y) : x \in x0, y \in Mem(q) }
    \cup (IF s.k # 0 THEN { O("before", l, x, y) : x \in x0, y \in Mem(q) } \cup { O("rm", l, x, -1) : x \in Mem(q) } ELSE {})
    \cup (IF s.k >= 2 THEN { O("rminit", l, x, -1) : x \in Mem(q) } ELSE {})
    \cup (IF (s.k = 0 /\ q # <<>>) \/ s.k = 1 THEN { O("rmhead", l, -1, -1) } ELSE {})
    \cup (IF s.k = 1 THEN { O("rmtail", l, -1, -1), O("cat", l, -1, -1), O("precat", l, -1, -1) } ELSE {})
    \cup (IF s.k = 2 THEN { O(o, l, x, y) : o \in {"repl", "replinit"}, x \in x0, y \in Mem(q) }
                          \cup { O(o, l, x, -1) : o \in {"mvhead", "mvtail"}, x \in all }
                          \cup { O(o, l, -1, -1) : o \in {"rot", "cat", "precat", "cat2", "precat2"} }
                          \cup (IF s.q[2 - l] = <<>> THEN { O("cut", l, x, -1) : x \in Mem(q) } ELSE {}) ELSE {})
    \cup (IF s.k = 3 THEN { O("moveall", l, -1, -1) } ELSE {}) : l \in {0, 1} }
Abs(s) == s
Good(s) == /\ Mem(s.q[1]) \cap Mem(s.q[2]) = {}
           /\ \A i \in 1..2 : Cardinality(Mem(s.q[i])) = Len(s.q[i])
=============================================================================
