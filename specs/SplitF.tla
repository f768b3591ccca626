-------------------------------- MODULE SplitF --------------------------------
(* String splitting (strsplit, strsplit_quick, strsplit_csv, strsplitargs) as  *)
(* automata that consume the characters of the input one by one.  The state    *)
(* after the last character gives the required fields or the required error.   *)
EXTENDS Integers, Sequences, SequencesExt, TLC
CONSTANTS Alpha, MaxLen0, Delims, Ops, Slots

NONE == 0
Quotes == {34, 39}
Backslash == 92
Space == {32} \cup 9..13
ToSet0(q) == { q[i] : i \in 1..Len(q) }

Rng(q, a, b) == IF a > b THEN <<>> ELSE SubSeq(q, a, b)
IsText(c) == c \notin Space
First(q) == LET k == SelectInSeq(q, IsText) IN IF k = 0 THEN Len(q) + 1 ELSE k
Last0(q) == SelectLastInSeq(q, IsText)
Trim(q) == Rng(q, First(q), Last0(q))
DropLastEmpty(f) == IF f # <<>> /\ f[Len(f)] = <<>> THEN SubSeq(f, 1, Len(f) - 1) ELSE f

\* ---- plain split
Split(q, D) == LET a == FoldLeft(LAMBDA x, c : IF c \in D THEN [out |-> Append(x.out, x.cur), cur |-> <<>>] ELSE [x EXCEPT !.cur = Append(@, c)],
                                 [out |-> <<>>, cur |-> <<>>], q)
               IN DropLastEmpty(Append(a.out, a.cur))
\* runs of delimiters collapsed; surrounding white space is not part of the text
Squeeze(q, D) ==
  LET t == Trim(q)
      f == Split(t, D)
      g == SelectSeq(f, LAMBDA x : x # <<>>)
  IN IF g = <<>> THEN <<>> ELSE IF t[1] \in D THEN <<<<>>>> \o g ELSE g
Fields(e) == IF e.sq = 1 THEN Squeeze(e.s, ToSet0(e.d)) ELSE Split(e.s, ToSet0(e.d))

\* ---- separated values with quotes
Csv(q, D) ==
  FoldLeft(LAMBDA x, c :
     IF c \in Quotes THEN
        IF x.q = c THEN IF x.prev = Backslash THEN [x EXCEPT !.cur = [@ EXCEPT ![Len(x.cur)] = c], !.prev = c] ELSE [x EXCEPT !.q = NONE, !.prev = c]
        ELSE IF x.q # NONE THEN [x EXCEPT !.cur = Append(@, c), !.prev = c]
        ELSE [x EXCEPT !.q = c, !.prev = c]
     ELSE IF c \in D /\ x.q = NONE THEN [x EXCEPT !.out = Append(@, x.cur), !.cur = <<>>, !.prev = c]
     ELSE [x EXCEPT !.cur = Append(@, c), !.prev = c],
     [q |-> NONE, prev |-> NONE, cur |-> <<>>, out |-> <<>>], q)
CsvFields(x) == IF x.cur = <<>> THEN x.out ELSE Append(x.out, x.cur)

\* ---- words of a command line
Args(q) ==
  FoldLeft(LAMBDA x, c :
     IF x.q # NONE THEN IF c = x.q THEN [x EXCEPT !.q = NONE] ELSE [x EXCEPT !.cur = Append(@, c)]
     ELSE IF c \in Space THEN IF x.w THEN [x EXCEPT !.out = Append(@, x.cur), !.cur = <<>>, !.w = FALSE] ELSE x
     ELSE IF c \in Quotes THEN [x EXCEPT !.q = c, !.w = TRUE]
     ELSE [x EXCEPT !.cur = Append(@, c), !.w = TRUE],
     [q |-> NONE, w |-> FALSE, cur |-> <<>>, out |-> <<>>], q)
ArgFields(x) == IF x.w THEN Append(x.out, x.cur) ELSE x.out

EINVAL == -22
ENOSPC == -28
Quoted(e, x, f) ==
  \/ x.q # NONE /\ Len(x.out) <= e.n /\ e.r = EINVAL
  \/ x.q # NONE /\ Len(x.out) > e.n /\ e.r < 0
  \/ x.q = NONE /\ Len(f) > e.n /\ e.r = ENOSPC
  \/ x.q = NONE /\ Len(f) <= e.n /\ e.r = Len(f) /\ e.f = f

Ok(s, e) ==
  /\ e.inb = 1
  /\ CASE e.op = "split" -> LET f == Fields(e) IN e.r = Len(f) /\ e.f = f
       [] e.op = "quick" -> LET f == Fields(e) IN IF Len(f) <= e.n THEN e.r = Len(f) /\ e.f = f ELSE e.r < 0
       [] e.op = "csv" -> LET x == Csv(e.s, IF e.nul = 1 THEN {44} ELSE ToSet0(e.d)) IN Quoted(e, x, CsvFields(x))
       [] e.op = "args" -> LET x == Args(e.s) IN Quoted(e, x, ArgFields(x))

Strs == UNION { [1..k -> Alpha] : k \in 0..MaxLen0 }
Events(s) ==
  { [op |-> "split", s |-> q, d |-> d, sq |-> z] : q \in IF "split" \in Ops THEN Strs ELSE {}, d \in Delims, z \in {0, 1} }
  \cup { [op |-> "quick", s |-> q, d |-> d, sq |-> z, n |-> n] : q \in IF "quick" \in Ops THEN Strs ELSE {}, d \in Delims, z \in {0, 1}, n \in Slots }
  \cup { [op |-> "csv", s |-> q, d |-> d, nul |-> IF d = <<>> THEN 1 ELSE 0, n |-> n] : q \in IF "csv" \in Ops THEN Strs ELSE {}, d \in Delims, n \in Slots }
  \cup { [op |-> "args", s |-> q, n |-> n] : q \in IF "args" \in Ops THEN Strs ELSE {}, n \in Slots }

Cfgs == { [k |-> 0] }
InitState(c) == 0
After(s, e) == s
Abs(s) == s
Good(s) == TRUE
\* laws of the specification itself: fields contain no delimiter and lose no other character
S3 == UNION { [1..k -> Alpha] : k \in 0..3 }
ASSUME /\ \A q \in S3, d \in Delims : LET f == Split(q, ToSet0(d)) IN
               /\ \A i \in 1..Len(f) : \A j \in 1..Len(f[i]) : f[i][j] \notin ToSet0(d)
               /\ FlattenSeq(f) = SelectSeq(q, LAMBDA c : c \notin ToSet0(d))
       /\ \A q \in S3, d \in Delims : LET z == Squeeze(q, ToSet0(d)) IN
               SelectSeq(z, LAMBDA x : x # <<>>) = SelectSeq(Split(Trim(q), ToSet0(d)), LAMBDA x : x # <<>>)
===============================================================================
