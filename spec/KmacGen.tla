-------------------------------- MODULE KmacGen --------------------------------
(* Cases of KMAC as frames computed from the definition.                          *)
EXTENDS Kmac, Json
CONSTANTS KLens, SLens, Tags
VARIABLE done
Case(l) == PrintT("@E " \o ToJson([f |-> "s", t |-> "s", l |-> l]))
Init == done = 0
Next == /\ done = 0 /\ done' = 1
        /\ \A w \in {168, 136} : \A k \in KLens : \A s \in SLens : \A t \in Tags :
             ((w = 168 /\ k >= 16) \/ k >= 32) => Case(Frame(k, s, t, w))
Spec == Init /\ [][Next]_done
===============================================================================
