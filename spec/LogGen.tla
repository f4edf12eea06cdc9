----------------------------------- MODULE LogGen -----------------------------------
(* Every kind of call, with every outcome, under every kind of logger and provider.     *)
EXTENDS Log, Json
CONSTANTS Loggers, Idps, Outcomes
VARIABLE s
E(op, l, i, o) == PrintT("@E " \o ToJson([f |-> s, t |-> s', l |-> [op |-> op, logger |-> l, idp |-> i, outcome |-> o]]))
Standalone == {"GetIdentity", "NewUser", "Login", "ChangePassword", "Join", "Leave", "DeleteUser", "NewGroup"}
Makes == {"New", "NewIndex"}
Sensible(op, i, o) ==
  /\ op \in Standalone => i = "standalone" /\ o # "scope"
  /\ op \in {"CreateToken", "Open"} \cup Makes => o \in {"ok", "missing"}
  /\ o = "denied" => NamesObject(op) /\ op # "Encrypt"
  /\ op \in {"Add", "Search", "DeleteEntry"} => o # "missing"
Init == s = "s"
Next == \E op \in Ops, l \in Loggers, i \in Idps, o \in Outcomes : Sensible(op, i, o) /\ s' = s /\ E(op, l, i, o)
Spec == Init /\ [][Next]_s
=============================================================================
