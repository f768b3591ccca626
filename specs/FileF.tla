-------------------------------- MODULE FileF --------------------------------
(* A filter saved to a file and loaded back (B04).                            *)
(* disk: "none" (never saved), "good" (exactly what save wrote) or "bad"      *)
(* (some byte changed, shortened or lengthened).  A load of a good file gives *)
(* the same filter, a load of a bad one is refused and yields no filter.      *)
(* A loaded filter also keeps evolving exactly as the original does ("grow"). *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Kinds, Sizes, Flips, Lens
Cfgs == { [k |-> k, n |-> n, e |-> e, seed |-> 1] : k \in Kinds, n \in Sizes, e \in {0, 3} }
InitState(c) == [k |-> c.k, disk |-> "none", mem |-> FALSE, cur |-> TRUE]
Damage == {"flip", "flips", "trunc", "cut", "ext", "swap"}
After(s, e) ==
  CASE e.op = "save" -> [s EXCEPT !.disk = "good", !.cur = TRUE, !.mem = FALSE]
    [] e.op = "heal" -> [s EXCEPT !.disk = "good"]
    [] e.op = "swap" -> IF "r" \in DOMAIN e /\ e.r = 0 THEN s ELSE [s EXCEPT !.disk = "bad"]
    [] e.op \in Damage -> [s EXCEPT !.disk = "bad"]
    [] e.op = "load" -> [s EXCEPT !.mem = s.disk = "good" /\ s.cur /\ (e.mm = 0 \/ s.mem)]
    [] e.op = "grow" -> [s EXCEPT !.mem = FALSE, !.cur = FALSE]
    [] OTHER -> s
Ok(s, e) ==
  CASE e.op = "load" -> IF s.disk = "good" /\ s.cur THEN e.r = 0 /\ e.same = 1
                        ELSE IF s.disk = "good" THEN e.r = 0 /\ e.same = 0
                        ELSE e.r = -1 /\ e.same = -1
    \* a load during which memory, a mapping or a descriptor is refused: no filter, an error, and nothing kept
    [] e.op = "loadm" -> /\ e.fds = 0
                         /\ IF e.hit = 1 \/ s.disk # "good" THEN e.r = -1 /\ e.same = -1 /\ e.live = 0
                            ELSE e.r = 0 /\ e.same = (IF s.cur THEN 1 ELSE 0) /\ (e.mm = 0 => e.live = 0)
    [] e.op \in {"flipall", "truncall", "extall", "save", "heal"} -> e.r = 0
    [] e.op = "grow" -> e.r = 1
    [] e.op = "swap" -> e.r \in {0, 1}
    [] e.op \in Damage -> e.r = 0
Events(s) ==
  IF s.disk = "none" THEN {[op |-> "save"]} \cup {[op |-> "load", mm |-> m] : m \in {0, 1}}
  ELSE {[op |-> "load", mm |-> m] : m \in {0, 1}}
       \cup (IF s.disk = "bad" THEN {[op |-> "heal"]}
             ELSE {[op |-> "flip", p |-> p, m |-> m] : p \in Flips, m \in {1, 128, 255}}
                  \cup {[op |-> "trunc", n |-> n] : n \in Lens} \cup {[op |-> "ext", n |-> n, v |-> v] : n \in {1, 32, 4096}, v \in {0, 7}}
                  \cup {[op |-> "cut", p |-> p, n |-> n] : p \in Flips, n \in {0, 31, 63}}
                  \cup (IF s.mem /\ s.k < 3 THEN {[op |-> "grow", n |-> 5]} ELSE {})
                  \cup {[op |-> "save"]})
Abs(s) == s
Good(s) == s.mem => s.disk # "none"
=============================================================================
