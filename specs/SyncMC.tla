--------------------------------- MODULE SyncMC ---------------------------------
EXTENDS Sync
U2 == <<1>>
D2 == <<2>>
U3 == <<1, 2>>
D3 == <<2, 3>>
\* one source with two others
UF == <<1, 1>>
DF == <<2, 3>>
\* a node in the middle that gets its content from one, where the other gets it from that as well
U4 == <<1, 1, 2>>
D4 == <<2, 3, 4>>
================================================================================
