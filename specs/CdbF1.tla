--------------------------------- MODULE CdbF1 ---------------------------------
EXTENDS CdbF
KeysV == { <<>>, <<0>>, <<1>>, <<1, 0, 0, 0, 5>>, <<1, 0, 0, 0, 6>>, <<1, 1>>, <<1, 2, 0, 0>>, <<2>>, <<255, 255, 255, 255>> }
KeysS == { <<>>, <<0>>, <<1, 0, 0, 0, 5>>, <<1, 0, 0, 0, 6>>, <<1, 1>> }
ValsV == { <<>>, <<7>>, <<8, 9>> }
ValsS == { <<>>, <<7, 7>> }
===============================================================================
