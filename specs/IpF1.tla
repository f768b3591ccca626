-------------------------------- MODULE IpF1 ----------------------------------
EXTENDS IpF
TailsV == { <<>>, <<Slash, 56>>, <<Slash, 51, 50>>, <<Slash, 51, 51>>, <<Slash>>, <<Slash, 56, Slash, 56>> }
MasksV == { MaskOf(n) : n \in 0..32 } \cup { << (2^i) % 65536, 0 >> : i \in 0..15 } \cup { <<0, 2^i>> : i \in 0..15 }
          \cup { << 65535, 65535 - 2^i >> : i \in 0..15 } \cup { << 65535 - 2^i, 65535 >> : i \in 0..15 } \cup { << 65535 - 2^i, 0 >> : i \in 0..15 }
===============================================================================
