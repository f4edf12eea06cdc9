-------------------------------- MODULE BlocksGen -------------------------------
(* Bounded histories of two accesses and one sealed one, as walks for the real code. *)
EXTENDS Blocks, Json
CONSTANTS Ids
VARIABLES a, box
None == {"none"}
Args == {<<>>} \cup {<<x>> : x \in Ids} \cup {<<x, y>> : x, y \in Ids}
E(op, h, ids) == PrintT("@E " \o ToJson([f |-> ToString(<<a, box>>), t |-> ToString(<<a', box'>>), l |-> [op |-> op, h |-> h, ids |-> ids]]))
Init == a = <<None, None>> /\ box = None
Next == \E h \in {1, 2} :
  \/ a' = [a EXCEPT ![h] = New] /\ box' = box /\ E("new", h, <<>>)
  \/ a[h] # None /\ box' = a[h] /\ a' = a /\ E("seal", h, <<>>)
  \/ box # None /\ a' = [a EXCEPT ![h] = box] /\ box' = box /\ E("unseal", h, <<>>)
  \/ a[h] # None /\ a' = a /\ box' = box /\ E("groups", h, <<>>)
  \/ \E ids \in Args : a[h] # None /\ a' = [a EXCEPT ![h] = Added(@, ids)] /\ box' = box /\ E("add", h, ids)
  \/ \E ids \in Args : a[h] # None /\ a' = [a EXCEPT ![h] = Removed(@, ids)] /\ box' = box /\ E("remove", h, ids)
  \/ \E ids \in Args : a[h] # None /\ a' = a /\ box' = box /\ E("contains", h, ids)
Spec == Init /\ [][Next]_<<a, box>>
===============================================================================
