--------------------------------- MODULE CallsGen ---------------------------------
(* Cases: one call, what happens at one of its requests, and perhaps another call that  *)
(* runs from beginning to end meanwhile.                                                *)
EXTENDS Naturals, Sequences, Json, TLC
CONSTANTS Ops, Others, MaxAt
VARIABLE done
E(l) == PrintT("@E " \o ToJson([f |-> "s", t |-> "s", l |-> l]))
Faults == {"fail", "fail after", "gone", "garbage", "cancel", "cancel unnoticed", "expire", "slow"}
Init == done = 0
Next ==
  /\ done = 0 /\ done' = 1
  /\ \A op \in Ops :
     /\ \A f \in {"none", "ended before", "bad token", "stranger", "powerless", "missing"} : E([op |-> op, at |-> 0, f |-> f, other |-> "", of |-> ""])
     /\ \A f \in Faults, a \in 1..MaxAt : E([op |-> op, at |-> a, f |-> f, other |-> "", of |-> ""])
     /\ \A o \in Others \cup {op}, a \in 1..(MaxAt \div 2), of \in {"none", "ended before", "ends first"} :
          E([op |-> op, at |-> a, f |-> "other", other |-> o, of |-> of])
Spec == Init /\ [][Next]_done
==================================================================================
