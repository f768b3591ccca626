-------------------------------- MODULE SaveF --------------------------------
(* Saving a filter over an existing file (B05): crash points and faults.      *)
(*                                                                            *)
(* The event of a save carries the file system calls the real code made, each *)
(* <<call, ok, file, other file, content hash after the call>>.  They drive a *)
(* small file-system model: every file has the content a process sees (cache) *)
(* and the content that survives a power failure (disk): a successful sync    *)
(* copies cache to disk and rename moves both.  At every call the destination *)
(* must survive an interruption: it holds, in cache and on disk, either what  *)
(* it held before the save or the final content of a save that ran to its     *)
(* end.  File 1 is the destination.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Kinds, MaxCall, Modes, Versions
OPEN == 1 TRUNC == 2 WRIT == 3 MMAP == 4 MUNMAP == 5 MSYNC == 6 FSYNC == 7 CLOSE == 8 REN == 9 UNL == 10
Cfgs == { [k |-> k, n |-> n, e |-> 3, seed |-> 1] : k \in Kinds, n \in {3, 40} }
InitState(c) == [dst |-> 0]
(* h.cache / h.disk: content hash by file id, -1 = not there / nothing durable *)
Fs0 == [cache |-> [i \in 1..63 |-> -1], disk |-> [i \in 1..63 |-> -1], ok |-> TRUE, ren |-> FALSE]
FsStep(h, c) ==
  LET f == c[3] g == c[4] v == c[5] IN
  IF f = 0 THEN h ELSE
  CASE c[1] = FSYNC /\ c[2] = 1 -> [h EXCEPT !.disk[f] = v, !.cache[f] = v]
    [] c[1] = REN /\ c[2] = 1 ->     \* v is the content now seen under the new name
         [h EXCEPT !.disk[g] = h.disk[f], !.cache[g] = v, !.disk[f] = -1, !.cache[f] = -1,
                   !.ok = h.ok /\ (g = 1 => h.disk[f] = v), !.ren = h.ren \/ g = 1]
    [] c[1] \in {OPEN, TRUNC, WRIT, MMAP} /\ c[2] = 1 -> \* direct modification of the destination in place
         [h EXCEPT !.cache[f] = v, !.ok = h.ok /\ f # 1]
    [] c[1] = UNL /\ c[2] = 1 -> [h EXCEPT !.cache[f] = -1, !.disk[f] = -1, !.ok = h.ok /\ f # 1]
    [] OTHER -> h
RECURSIVE Run(_, _, _)
Run(h, calls, i) == IF i > Len(calls) THEN h ELSE Run(FsStep(h, calls[i]), calls, i + 1)
After(s, e) == [dst |-> IF "now" \in DOMAIN e THEN e.now ELSE IF e.m = 0 THEN e.v ELSE s.dst]
Ok(s, e) ==
  LET h == Run(Fs0, e.calls, 1) IN
  /\ e.was = s.dst
  /\ e.now \in {s.dst, e.v}                    \* old or new, complete
  /\ h.ok                                      \* ... even if power fails at any moment
  /\ e.r = 0 => e.now = e.v                    \* reported success is in place
  /\ e.r # 0 => e.r \in {-1, -99}              \* failures are errors
  /\ (e.m = 0) => e.r = 0
  /\ (e.r = -1 /\ s.dst # e.v) => e.now = s.dst \* a failed save changes nothing
Events(s) == { [op |-> "put", v |-> v, k |-> k, m |-> m] : v \in Versions, k \in 1..MaxCall, m \in Modes } \cup { [op |-> "put", v |-> v, k |-> 0, m |-> 0] : v \in Versions }
Abs(s) == s
Good(s) == s.dst \in {0} \cup Versions
=============================================================================
