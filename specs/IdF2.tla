-------------------------------- MODULE IdF2 ----------------------------------
EXTENDS IdF1
ASSUME Faithful
ASSUME Ordered(IdsP)
===============================================================================
