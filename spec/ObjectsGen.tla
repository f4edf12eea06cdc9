----------------------------- MODULE ObjectsGen -----------------------------
(* A bounded instance of the sequential specification whose labelled state    *)
(* graph is turned into walks that are executed on the real code: every       *)
(* transition (operation, caller, arguments, state) is driven at least once.  *)
EXTENDS Objects, Json

CONSTANTS Slots, Members, Pays, Rich

AllSc == {OpScope[o] : o \in ObjOps}
P(id, auth, sc, gr) == [id |-> id, auth |-> auth, sc |-> sc, gr |-> gr]
Callers == { P("a", TRUE, AllSc, {}),
             P("b", TRUE, AllSc, {[g |-> "g1", sc |-> AllSc]}),
             P("c", TRUE, AllSc, {[g |-> "g1", sc |-> {"Decrypt"}]}),
             P("d", TRUE, {"Decrypt"}, {[g |-> "g1", sc |-> AllSc]}),
             P("a", FALSE, AllSc, {[g |-> "g1", sc |-> AllSc]}) }
           \cup IF Rich THEN { P("c", TRUE, AllSc, {[g |-> "g1", sc |-> AllSc \ {"Decrypt"}], [g |-> "g2", sc |-> {"Decrypt"}]}),
                               P("a", TRUE, AllSc \ {"Decrypt", "ModifyAccessGroups"}, {[g |-> "g2", sc |-> AllSc]}),
                               P("e", TRUE, {}, {[g |-> "g1", sc |-> AllSc], [g |-> "g2", sc |-> AllSc]}) } ELSE {}

VARIABLE s   \* slot -> [k |-> "none" | "live" | "gone", gs, pay]

None == [k |-> "none", gs |-> {}, pay |-> ""]
Init == s = [x \in Slots |-> None]

Args(op) == IF op \in {"Encrypt", "AddGroupsToAccess", "RemoveGroupsFromAccess"}
            THEN {{}} \cup {{m} : m \in Members} \cup (IF Rich THEN {Members} ELSE {}) ELSE {{}}
PayArgs(op) == IF op \in {"Encrypt", "Update"} THEN Pays ELSE {""}

(* the stored records this abstract state stands for *)
Rec(x) == IF s[x].k = "live" THEN [o |-> {SealObj(x, s[x].pay, "ad", 1)}, a |-> {SealAcc(x, s[x].gs, 1, 1)}] ELSE Absent

Step(op, c, x, pay, gs) ==
  LET v == Verdict(op, c, x, Rec(x)) IN
  /\ op = "Encrypt" => s[x].k # "live"
  \* keep the graph small: lists over Members and the plain IDs only
  /\ op = "Encrypt" => c.id \in Members \cup {"a"}
  /\ s' = IF v # "ok" THEN s ELSE
          CASE op = "Encrypt" -> [s EXCEPT ![x] = [k |-> "live", gs |-> gs \cup {c.id}, pay |-> pay]]
            [] op = "Update" -> [s EXCEPT ![x].pay = pay]
            [] op = "Delete" /\ s[x].k = "live" -> [s EXCEPT ![x] = [None EXCEPT !.k = "gone"]]
            [] op = "AddGroupsToAccess" -> [s EXCEPT ![x].gs = @ \cup gs]
            [] op = "RemoveGroupsFromAccess" -> [s EXCEPT ![x].gs = @ \ gs]
            [] OTHER -> s
  /\ PrintT("@E " \o ToJson([f |-> ToString(s), t |-> ToString(s'),
       l |-> [op |-> op, auth |-> c.auth, id |-> c.id, sc |-> c.sc, gr |-> c.gr, oid |-> x, pay |-> pay, gs |-> gs]]))

Next == \E op \in ObjOps, c \in Callers, x \in Slots : \E pay \in PayArgs(op), gs \in Args(op) : Step(op, c, x, pay, gs)
Spec == Init /\ [][Next]_s
=============================================================================
