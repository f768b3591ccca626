-------------------------------- MODULE SysRandF1 --------------------------------
EXTENDS SysRandF
StepsV == {1, 2, 5, -4, -5}
LensV == {0, 1, 3, 7}
\* never more than asked for, and all of it unless there was an error
ASSUME \A n \in 0..6, st \in SeqsOf(StepsV, 4) : LET t == Take(n, st, 0) IN t[1] <= n /\ (t[2] = 0 => t[1] = n)
=================================================================================
