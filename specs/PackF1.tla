-------------------------------- MODULE PackF1 --------------------------------
EXTENDS PackF
T1 == { <<>>, <<62>>, <<66>>, <<98>>, <<62,83>>, <<60,115>>, <<105>>, <<62,73>>, <<108>>, <<62,76>>, <<102>>, <<62,102>>, <<68>>, <<62,100>>, <<120>>, <<52,120>>, <<122>>, <<90>>, <<51,90>>, <<49,50,66>>, <<62,49,48,115>>, <<49,49,120>>, <<49,48,90>> }
T2 == { <<62>> \o x \o y : x \in { <<52,66>>, <<50,83>>, <<51,73,9>>, <<50,76>>, <<49,83>>, <<42,66>>, <<42,32,83>>, <<42,105>>, <<42,108>>, <<42,90>>, <<42,120>>, <<42,102>>, <<90>>, <<56,122>> }, y \in { <<>>, <<32,66>>, <<32,120>>, <<90>>, <<42,83>> } }
T3 == { Tail(t) : t \in T2 }
Malformed == { <<42>>, <<42,42,66>>, <<42,50,90>>, <<52>>, <<66,52>>, <<52,32,66>>, <<113>>, <<66,63>>, <<255>>, <<128,66>>, <<126>>, <<123>>, <<32,62,66>>, <<66,60>>, <<97>>, <<1>>, <<66,42>> }
TmplsV == T1 \cup T2 \cup T3 \cup Malformed
InsV == { <<>>, <<0>>, <<1,2,3>>, <<0,0,0,1>>, <<1,0,0,0,77>>, <<2,0,0,0,104,105,0,1,2,3,4,5,6,7,8,9>>, <<0,0,0,2,104,105,106,107,108,109,0,1,2,3,4,5,6,7,8,9,10>>, <<255,255,255,255,1,2,3>>, <<0,0,0,0,0,0,0,0>>, <<127,255,255,255,255,255,255,254,104,0,65,0,66,67,0,68,69>> }
===============================================================================
