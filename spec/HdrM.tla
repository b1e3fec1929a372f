---------------------------------- MODULE HdrM ----------------------------------
EXTENDS Hdr
ValsDef == {<<0,0>>} \cup {<<2*i + 1, k>> : i \in 0..6, k \in {-3, 0, 2}} \cup {<<255, -8>>, <<257, -9>>, <<511, 2>>}
===============================================================================
