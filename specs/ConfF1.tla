-------------------------------- MODULE ConfF1 --------------------------------
EXTENDS ConfF
CONSTANTS Alpha, MaxLen0, LineKinds, MaxLines, PAlpha, PMax, NAlpha, NMax
Strs(A, n) == UNION { [1..k -> A] : k \in 0..n }
\* files of whole lines: indentation x text
T1 == { <<97, 58>>, <<98>>, <<98, 32, 61, 32, 99>> }
Line(l) == Blanks(l[1]) \o l[2] \o <<10>>
FilesL == { FoldLeft(LAMBDA a, l : a \o Line(l), <<>>, f) : f \in UNION { [1..k -> LineKinds] : k \in 0..MaxLines } }
FilesV == Strs(Alpha, MaxLen0) \cup FilesL
LineKindsV == { <<i, t>> : i \in {0, 1, 2}, t \in { <<97, 58>>, <<98, 61, 99>> } } \cup { <<1, <<>>>>, <<0, <<35>>>>, <<1, <<100, 32, 101>>>> }
NoLines == {}
PathsV == Strs(PAlpha, PMax)
NumsV == Strs(NAlpha, NMax)
===============================================================================
