-------------------------------- MODULE RotF1 ---------------------------------
EXTENDS RotF
IdxV == {-1, 0, 1, 2, 3}
SizesV == {<<0, 0>>, <<1, 0>>, <<1, 1>>}
===============================================================================
