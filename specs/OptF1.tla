-------------------------------- MODULE OptF1 --------------------------------
EXTENDS OptF
CONSTANTS Words, MaxWords, WordSet, Shorts, Posix, Ls
W1 == { <<45, 97>>, <<45, 98>>, <<45, 99>>, <<45, 97, 98, 122>>, <<120>>, <<45>>, <<45, 45>>, <<45, 45, 102, 111>>, <<45, 45, 102, 111, 111>>, <<45, 99, 113>> }
W2 == { <<45, 45, 102>>, <<45, 45, 102, 111, 111>>, <<45, 45, 102, 111, 111, 98>>, <<45, 45, 102, 111, 111, 61, 49>>, <<45, 45, 102, 111, 111, 98, 61, 50>>, <<45, 45, 102, 111, 98, 61>>,
        <<45, 45, 120>>, <<45, 45, 97, 98>>, <<45, 45, 97>>, <<45, 45, 97, 98, 99>>, <<45, 45, 98, 61, 45>>, <<110>>, <<45, 45>>, <<45, 87>>, <<45, 87, 97, 98>> }
W3 == { <<45, 97>>, <<45, 98>>, <<45, 45>>, <<45, 45, 98>>, <<110>>, <<109>> }
WordsV == CASE WordSet = 1 -> W1 [] WordSet = 2 -> W2 [] WordSet = 3 -> W3 [] OTHER -> {}
LinesV == { Flat(f) : f \in UNION { [1..k -> Words] : k \in 0..MaxWords } }
\* short option strings: ab:c::  +ab:c::  -ab:c::  :ab:c::  +:ab:  abW;
S1 == << <<97, 98, 58, 99, 58, 58>>, <<43, 97, 98, 58, 99, 58, 58>>, <<45, 97, 98, 58, 99, 58, 58>>, <<58, 97, 98, 58, 99, 58, 58>>, <<43, 58, 97, 98, 58>>, <<97, 98, 58, 87, 59>> >>
CfgSetV == { [L |-> l, o |-> S1[i], posix |-> p, err |-> 0] : l \in Ls, i \in Shorts, p \in Posix }
===============================================================================
