----------------------------- MODULE DiskMapMC -----------------------------
EXTENDS DiskMap
CONSTANTS Keys, Vals
Init == \E n \in {1, 2, 3, 99} : MapInit(n)
Next == \/ \E k \in Keys, v \in Vals : Insert(k, v)
        \/ \E k \in Keys : Remove(k)
        \/ Compact \/ Clear \/ Reopen
Spec == Init /\ [][Next]_mvars
=============================================================================
