--------------------------------- MODULE WalkF --------------------------------
(* Walking a tree.  The tree is a function from paths (sequences of names) to     *)
(* nodes; a walk is a stack of directories being visited, each with the entries    *)
(* still to come.                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS Trees, Roots, Opts, Orders, SetIns, KidOps
D == 1  DC == 2  DEFAULT == 3  DNR == 4  DOTK == 5  DP == 6  ERR == 7  F == 8  NS == 10  NSOK == 11  SL == 12  SLNONE == 13
AGAIN == 1  FOLLOW == 2  NOINSTR == 3  SKIP == 4
Slash == 47
\* ----------------------------------------------------------------- text forms
SplitOn(q, c) == LET a == FoldLeft(LAMBDA x, y : IF y = c THEN [o |-> Append(x.o, x.c), c |-> <<>>] ELSE [x EXCEPT !.c = Append(@, y)], [o |-> <<>>, c |-> <<>>], q)
                 IN IF a.c = <<>> THEN a.o ELSE Append(a.o, a.c)
Comps(q) == SelectSeq(SplitOn(q, Slash), LAMBDA x : x # <<>> /\ x # <<46>>)
\* a line "k path" or "k path>target"
Node(l) == LET pt == SplitOn(SubSeq(l, 3, Len(l)), 62) IN [p |-> Comps(pt[1]), k |-> l[1], g |-> IF Len(pt) > 1 THEN Comps(pt[2]) ELSE <<>>]
ParseTree(q) == LET ls == SplitOn(q, 10) ns == { Node(ls[i]) : i \in 1..Len(ls) } IN
                (<<>> :> [p |-> <<>>, k |-> 100, g |-> <<>>]) @@ [p \in { n.p : n \in ns } |-> CHOOSE n \in ns : n.p = p]
IsDir(n) == n.k \in {100, 117, 120}        \* d: plain, u: may not be read, x: may be read but not entered
IsLink(n) == n.k = 108
\* ----------------------------------------------------------------- resolving
None == <<<<0>>>>
RECURSIVE Res(_, _, _, _)
\* real path of components cs below at; links followed, the last one too when fin
Res(t, at, cs, n) ==
  IF cs = <<>> THEN at
  ELSE LET p == Append(at, Head(cs)) IN
       IF n = 0 \/ p \notin DOMAIN t THEN None
       ELSE IF IsLink(t[p]) THEN Res(t, <<>>, t[p].g \o Tail(cs), n - 1)
       ELSE IF Tail(cs) # <<>> /\ ~ IsDir(t[p]) THEN None
       ELSE Res(t, p, Tail(cs), n)
Real(t, p) == Res(t, <<>>, p, 12)
\* the node a path names, its last link not followed
Lex(t, p) == IF p = <<>> THEN <<>> ELSE LET u == Real(t, SubSeq(p, 1, Len(p) - 1)) IN IF u = None THEN None ELSE Append(u, p[Len(p)])
Kids(t, d) == { p[Len(p)] : p \in { x \in DOMAIN t : Len(x) = Len(d) + 1 /\ SubSeq(x, 1, Len(d)) = d } }
Loops(t, p) == Real(t, p) = None /\ LET g == t[p].g IN Lex(t, g) # None /\ Lex(t, g) \in DOMAIN t
\* ----------------------------------------------------------------- the walk
AnyName == <<0>>
Cfgs == { [tree |-> tr, roots |-> r, log |-> o[1], com |-> o[2], noc |-> o[3], nos |-> o[4], dot |-> o[5], xdev |-> 0, ord |-> x] : tr \in Trees, r \in Roots, o \in Opts, x \in Orders }
InitState(c) == [t |-> ParseTree(c.tree), log |-> c.log = 1, com |-> c.com = 1, noc |-> c.noc = 1, nos |-> c.nos = 1 /\ c.log = 0, dot |-> c.dot = 1, ord |-> c.ord,
                 todo |-> SplitOn(c.roots, 10), fr |-> <<>>, cur |-> [info |-> 9, ins |-> NOINSTR], id |-> 0, ph |-> "new", kid |-> [n \in {} |-> 0], known |-> FALSE, names |-> FALSE, hint |-> AnyName]
\* hint: the only child worth looking at (AnyName: no such hint)
Phys(s) == ~ s.log
RECURSIVE Less(_, _, _)
Less(a, b, i) == IF i > Len(b) THEN FALSE ELSE IF i > Len(a) THEN TRUE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE Less(a, b, i + 1)
Before(s, a, b) == IF s.ord = 1 THEN Less(a, b, 1) ELSE IF s.ord = 2 THEN Less(b, a, 1) ELSE FALSE
Above(s) == { s.fr[i].real : i \in DOMAIN s.fr }
\* kinds an entry may be reported as; node: its place in the tree; follow: look through links; anc: real paths of the directories above
Kinds(s, node, follow, anc, blocked) ==
  LET t == s.t IN
  IF blocked THEN {NS, NSOK}
  ELSE IF node = None \/ node \notin DOMAIN t THEN {NS}
  ELSE LET n == t[node]
           r == IF IsLink(n) /\ follow THEN Real(t, node) ELSE node
           base == IF IsLink(n) /\ follow /\ r = None THEN {SLNONE}
                   ELSE IF IsLink(n) /\ ~ follow THEN {SL}
                   ELSE IF IsDir(t[r]) THEN (IF r \in anc THEN {DC} ELSE {D})
                   ELSE IF t[r].k = 102 THEN {F} ELSE {DEFAULT}
       IN IF s.nos /\ base \cap {D, DC} = {} THEN base \cup {NSOK} ELSE base
RealOf(s, x) == IF x.node \in DOMAIN s.t /\ IsLink(s.t[x.node]) THEN Real(s.t, x.node) ELSE x.node
Ext(txt, n) == (IF txt # <<>> /\ txt[Len(txt)] = Slash THEN txt ELSE Append(txt, Slash)) \o n
Entry(txt, name, node, lev, id, info, fol, ins) == [txt |-> txt, name |-> name, node |-> node, lev |-> lev, id |-> id, info |-> info, fol |-> fol, ins |-> ins]
\* entering the next root
RootText(s, e) == e.path
Turn(s, x, i) == { [s EXCEPT !.cur = [x EXCEPT !.info = k, !.ins = NOINSTR]] : k \in i }
StartRoot(s, i) ==
  LET q == s.todo[i] IN
  UNION { LET node == Lex(s.t, Comps(q))
              ks == Kinds(s, node, s.log \/ s.com, {}, FALSE)
              k2 == IF ks = {NS} THEN {NS} ELSE ks
          IN { [s EXCEPT !.todo = RemoveAt(@, i), !.id = @ + 1, !.cur = Entry(q, <<>>, node, 0, s.id + 1, k, s.log \/ s.com, NOINSTR)] : k \in k2 } }
NextRoot(s) ==
  IF s.todo = <<>> THEN { [s EXCEPT !.cur = [info |-> 0, ins |-> NOINSTR], !.ph = "end"] }
  ELSE IF s.ord = 0 THEN StartRoot(s, 1)
  ELSE UNION { StartRoot(s, i) : i \in { j \in DOMAIN s.todo : \A m \in DOMAIN s.todo : ~ Before(s, s.todo[m], s.todo[j]) } }
\* children of the top directory: those that may come next, and whether the directory may be left
Top(s) == s.fr[Len(s.fr)]
Skipped(f) == { n \in f.todo : n \in DOMAIN f.kid /\ f.kid[n] = SKIP }
May(s) == { n \in IF s.hint = AnyName THEN Top(s).todo ELSE Top(s).todo \cap {s.hint} : \A m \in Top(s).todo : Before(s, m, n) => m \in Skipped(Top(s)) }
IsDot(n) == n \in {<<46>>, <<46, 46>>}
Child(s, n) ==
  LET f == Top(s)
      k == IF n \in DOMAIN f.kid THEN f.kid[n] ELSE NOINSTR
      node == Append(f.real, n)
      direct == s.log \/ k = FOLLOW
      txt == Ext(f.x.txt, n)
      rest == { m \in f.todo : m # n /\ ~ (Before(s, m, n) /\ m \in Skipped(f)) }
      s2 == [s EXCEPT !.fr[Len(s.fr)].todo = rest, !.fr[Len(s.fr)].fresh = FALSE, !.id = @ + 1]
      E(i, fol, ins) == [s2 EXCEPT !.cur = Entry(txt, n, node, f.x.lev + 1, s.id + 1, i, fol, ins)]
  IN IF IsDot(n) THEN { E(i, FALSE, k) : i \in {DOTK} \cup (IF s.nos THEN {NSOK} ELSE {}) \cup (IF f.blocked THEN {NS} ELSE {}) }
     \* an instruction given through the list of children: the first child is shown with it still to be done
     ELSE IF k = FOLLOW /\ f.fresh THEN { E(i, s.log, FOLLOW) : i \in Kinds(s, node, s.log, Above(s), f.blocked) }
     ELSE { E(i, direct, IF k = FOLLOW THEN NOINSTR ELSE k) : i \in Kinds(s, node, direct, Above(s), f.blocked) }
Leave(s) == LET f == Top(s) IN
            { [s EXCEPT !.fr = SubSeq(@, 1, Len(@) - 1), !.cur = [f.x EXCEPT !.info = k, !.ins = NOINSTR]] : k \in IF f.blocked THEN {DP, ERR} ELSE {DP} }
Onward(s) ==
  IF s.fr = <<>> THEN NextRoot(s)
  ELSE UNION { Child(s, n) : n \in May(s) } \cup (IF Top(s).todo = Skipped(Top(s)) THEN Leave(s) ELSE {})
Enter(s) ==
  LET x == s.cur
      r == RealOf(s, x)
      n == s.t[r]
      ks == Kids(s.t, r) \cup (IF s.dot THEN {<<46>>, <<46, 46>>} ELSE {})
      f == [real |-> r, x |-> x, todo |-> ks, kid |-> s.kid, fresh |-> TRUE, blocked |-> n.k = 120]
  IN IF n.k = 117 THEN Turn(s, x, {DNR})
     ELSE IF ks = {} THEN Turn(s, x, IF f.blocked THEN {DP, ERR} ELSE {DP})
     ELSE Onward([s EXCEPT !.fr = Append(@, f)])
Clear(S) == { [x EXCEPT !.kid = [n \in {} |-> 0], !.known = FALSE, !.names = FALSE, !.hint = AnyName] : x \in S }
Steps(s) ==
  LET x == s.cur IN
  Clear(CASE x.info = 9 -> NextRoot(s)
          [] x.info = 0 -> {s}
          [] x.ins = AGAIN -> IF IsDot(x.name) THEN Turn(s, x, {x.info, DOTK}) ELSE Turn(s, x, Kinds(s, x.node, s.log, Above(s), FALSE) \cup Kinds(s, x.node, x.fol, Above(s), FALSE))
          [] x.ins = FOLLOW /\ x.info \in {SL, SLNONE} -> { [y EXCEPT !.cur.fol = TRUE] : y \in Turn(s, x, Kinds(s, x.node, TRUE, Above(s), FALSE)) }
          [] x.info = D /\ x.ins = SKIP -> Turn(s, x, {DP})
          [] x.info = D -> Enter(s)
          [] OTHER -> Onward(s))
\* a result matches a step
Depth(s, r) == IF \E i \in DOMAIN s.fr : s.fr[i].real = r THEN s.fr[CHOOSE i \in DOMAIN s.fr : s.fr[i].real = r].x.lev ELSE -1
Fits(s, y, e) ==
  IF y.cur.info = 0 THEN e.info = 0 /\ e.home = 1
  ELSE /\ e.info = y.cur.info
       /\ e.path = y.cur.txt /\ e.lev = y.cur.lev /\ e.up = y.cur.lev - 1
       /\ (y.cur.lev > 0 => e.name = y.cur.name)
       /\ e.lens = 1
       /\ e.acc # 0 /\ e.st # 0
       /\ e.num = (IF y.id > s.id THEN 0 ELSE y.cur.id)
       /\ (e.info = DC => e.cyc = Depth(y, RealOf(y, y.cur)))
       /\ (s.noc \/ s.log => e.home = 1)
\* the names below the current directory, or the roots before the first read
Shown(s) == IF s.cur.info = 9 THEN { s.todo[i] : i \in DOMAIN s.todo } ELSE IF s.cur.info = D /\ s.t[RealOf(s, s.cur)].k # 117 THEN Kids(s.t, RealOf(s, s.cur)) \cup (IF s.dot THEN {<<46>>, <<46, 46>>} ELSE {}) ELSE {}
Sorted(s, q) == \A i \in 1..(Len(q) - 1) : ~ Before(s, q[i + 1], q[i])
\* ftw: every entry once, directories before their contents
RECURSIVE All(_, _, _)
All(t, p, n) == {p} \cup (IF p \in DOMAIN t /\ IsDir(t[p]) /\ t[p].k # 117 THEN UNION { All(t, Append(p, k), n) : k \in Kids(t, p) } ELSE {})
FtwKind(t, p, top) == IF ~ (p \in DOMAIN t) THEN 3 ELSE IF IsLink(t[p]) THEN (IF ~ top THEN 4 ELSE IF Real(t, p) = None THEN 3 ELSE IF IsDir(t[Real(t, p)]) THEN 1 ELSE 0) ELSE IF t[p].k = 117 THEN 2 ELSE IF IsDir(t[p]) THEN 1 ELSE 0
FtwOk(s, e) ==
  LET q == s.todo[1] IN     \* root: a plain directory or file of the tree
  LET r == Lex(s.t, Comps(q))
      P(txt) == Comps(txt)
      seen == [i \in DOMAIN e.v |-> P(e.v[i][2])]
      prei == [i \in DOMAIN e.v |-> e.v[i][1]]
  IN /\ e.r = 0 /\ e.home = 1 /\ e.fds = 1
     /\ { seen[i] : i \in DOMAIN seen } = All(s.t, r, 0)
     \* an unreadable directory is seen as a directory first
     /\ \A p \in All(s.t, r, 0) : LET I == { i \in DOMAIN seen : seen[i] = p } IN
          IF p \in DOMAIN s.t /\ s.t[p].k = 117 THEN { prei[i] : i \in I } \subseteq {1, 2} /\ Cardinality(I) <= 2
          ELSE Cardinality(I) = 1 /\ \A i \in I : prei[i] = FtwKind(s.t, p, p = r)
     /\ \A i, j \in DOMAIN seen : (Len(seen[i]) < Len(seen[j]) /\ SubSeq(seen[j], 1, Len(seen[i])) = seen[i]) => i < j
Hinted(s, e) == IF e.info = 0 THEN s ELSE [s EXCEPT !.hint = e.name]
Ok(s, e) ==
  CASE e.op = "short" -> e.r = 0
    \* memory ran out: said so, and nothing kept (or, where only the sorting is lost, the walk goes on in some order)
    [] e.op = "open" -> e.home = 1 /\ (IF e.hit = 1 /\ e.r = 0 THEN e.err = 12 /\ e.live = 0 /\ e.fds = 1 ELSE e.r = 1)
    [] e.op \in {"read", "kids"} /\ s.ph # "lost" /\ e.hit = 1 -> IF e.op = "read" THEN (IF e.info = -1 THEN e.err = 12 ELSE e.info \in 1..13) ELSE (e.r = 1 \/ (e.r = -1 /\ e.err = 12))
    [] s.ph = "lost" /\ e.op # "close" -> TRUE      \* the tree was changed under the walk: only the way back matters
    [] e.op = "read" -> \E y \in Steps(Hinted(s, e)) : Fits(s, y, e)
    [] e.op = "set" -> e.r = (IF s.cur.info = 0 THEN -5 ELSE 0)
    [] e.op = "kids" ->
         /\ { e.ks[i] : i \in DOMAIN e.ks } = Shown(s)
         /\ (s.cur.info # 9 => Len(e.ks) = Cardinality(Shown(s))) /\ (s.cur.info = 9 => Len(e.ks) = Len(s.todo))
         /\ Sorted(s, e.ks)
         /\ (Shown(s) # {} => e.r = 1)
         /\ (s.noc \/ s.log => e.home = 1)
    [] e.op = "kset" -> e.r = 0
    [] e.op = "away" -> e.r = 0
    [] e.op = "close" -> e.r = 0 /\ e.home = 1 /\ e.fds = 1 /\ e.live = 0
    [] e.op = "ftw" -> FtwOk(s, e)
Pick(S) == CHOOSE y \in S : \A z \in S : y.cur.info = 0 \/ z.cur.info = 0 \/ y.cur.txt = z.cur.txt \/ Less(y.cur.txt, z.cur.txt, 1)
After(s, e) ==
  CASE e.op = "short" -> s
    [] "hit" \in DOMAIN e /\ e.hit = 1 -> [s EXCEPT !.ph = "lost"]
    [] e.op = "open" -> [s EXCEPT !.ph = "walk"]
    [] s.ph = "lost" /\ e.op # "close" -> s
    [] e.op = "away" -> [s EXCEPT !.ph = "lost"]
    [] e.op = "read" -> IF "info" \in DOMAIN e THEN CHOOSE y \in Steps(Hinted(s, e)) : Fits(s, y, e) ELSE Pick(Steps(s))
    [] e.op = "set" -> [s EXCEPT !.cur.ins = e.i]
    [] e.op = "kids" -> [s EXCEPT !.known = s.cur.info = D /\ e.n = 0, !.kid = [n \in {} |-> 0]]
    [] e.op = "kset" -> [s EXCEPT !.kid = (e.name :> e.i) @@ @]
    [] e.op = "close" -> [s EXCEPT !.ph = "closed"]
    [] OTHER -> s
Plain(x) == "fol" \in DOMAIN x /\ ~ x.fol
Events(s) ==
  CASE s.ph = "new" -> { [op |-> "open"] }
    [] s.ph = "walk" -> { [op |-> "read"], [op |-> "close"] }
                        \cup { [op |-> "set", i |-> i] : i \in IF s.cur.info # 9 /\ s.cur.ins = NOINSTR THEN { j \in SetIns : j # AGAIN \/ (Plain(s.cur) /\ s.cur.info # DP) } ELSE {} }
                        \cup (IF s.known THEN { [op |-> "kset", name |-> n, i |-> i] : n \in Shown(s), i \in SetIns \cap {SKIP, FOLLOW} } ELSE {})
                        \cup { [op |-> "kids", n |-> n] : n \in IF s.known THEN {} ELSE KidOps }
    [] s.ph = "end" -> { [op |-> "close"] }
    [] OTHER -> {}
Abs(s) == [s EXCEPT !.id = 0, !.t = <<>>]
\* the stack is a chain of distinct real directories, and nothing pending lies outside the directory it belongs to
Good(s) == /\ \A i, j \in DOMAIN s.fr : i # j => s.fr[i].real # s.fr[j].real
           /\ \A i \in DOMAIN s.fr : s.fr[i].x.lev = i - 1
           /\ (s.ph = "end" => s.fr = <<>> /\ s.todo = <<>>)
===============================================================================
