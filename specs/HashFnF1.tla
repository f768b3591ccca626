------------------------------- MODULE HashFnF1 -------------------------------
EXTENDS HashFnF
SeedsV == { Zero, <<0, 0, 0, 1>>, <<\h0123, \h4567, \h89AB, \hCDEF>> }
===============================================================================
