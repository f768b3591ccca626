-------------------------------- MODULE ErrTxtF --------------------------------
(* System errors as values and exceptions: number and text, whatever their length *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Nums, Texts
COLON == 58
Cfgs == { [x |-> 0] }
InitState(c) == [last |-> 0]
\* std: the system's own text for the number
Text(e) == IF e.p = <<>> THEN e.std ELSE e.p \o <<COLON, 32>> \o e.std
\* whole if not too long, otherwise its beginning
Cut(w, o) == /\ Len(o) <= Len(w) /\ SubSeq(w, 1, Len(o)) = o
             /\ Len(o) = Len(w) \/ Len(o) >= 1000
\* two parts, the first of which may have been cut, too
Cut2(m, w, o) == \/ Cut(m \o w, o)
                 \/ Len(m) > 1000 /\ Len(o) >= 1000
                    /\ \E k \in 1000..Len(o) : k <= Len(m) /\ Len(o) - k <= Len(w) /\ o = SubSeq(m, 1, k) \o SubSeq(w, 1, Len(o) - k)
Ok(s, e) ==
  CASE e.op = "err" -> e.code = e.n /\ e.text = Text(e)
    [] e.op = "made" -> e.code = e.n /\ e.text = e.p              \* a value made of a number and a text
    [] e.op = "last" -> e.code = e.n /\ e.text = Text(e) /\ e.no = e.n
    [] e.op = "exc" -> e.code = e.n /\ Cut(Text(e), e.text)
    [] e.op = "excf" -> e.code = e.n /\ Cut2(e.m, <<COLON>> \o Text(e), e.text)
    [] e.op = "msg" -> e.code = 0 /\ Cut(e.m, e.text)
    [] e.op = "intr" -> e.code = 4 /\ Cut(e.m, e.text)
    [] e.op = "died" -> e.code = 0 /\ Cut(<<84,104,114,101,97,100,32,111,119,110,105,110,103,32,108,111,99,107,101,100,32,39>> \o e.m \o <<39,32,100,105,101,100>>, e.text)
After(s, e) == s
Events(s) == { [op |-> o, n |-> n, p |-> p] : o \in {"err", "made", "last", "exc"}, n \in Nums, p \in Texts }
             \cup { [op |-> "excf", n |-> n, p |-> p, m |-> m] : n \in Nums, p \in Texts, m \in Texts }
             \cup { [op |-> o, m |-> m] : o \in {"msg", "intr", "died"}, m \in Texts }
Abs(s) == s
Good(s) == TRUE
================================================================================
