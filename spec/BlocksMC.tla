-------------------------------- MODULE BlocksMC --------------------------------
(* Accesses as the code has them - handles to maps on a heap, which sealing copies    *)
(* out of and unsealing into a new map - against the history of calls.  Share: all   *)
(* new accesses use one map (must fail).                                            *)
EXTENDS Blocks
CONSTANTS Handles, Ids, MaxCalls, Share
VARIABLES heap, ref, box, hist, boxed, n
vars == <<heap, ref, box, hist, boxed, n>>
None == 0
Args == {<<>>} \cup {<<a>> : a \in Ids} \cup {<<a, b>> : a, b \in Ids}
Init == heap = <<{}>> /\ ref = [h \in Handles |-> None] /\ box = [full |-> FALSE, set |-> {}]
        /\ hist = [h \in Handles |-> <<>>] /\ boxed = <<>> /\ n = 0
Step == n < MaxCalls /\ n' = n + 1
NewA(h) == Step /\ (IF Share THEN heap' = heap /\ ref' = [ref EXCEPT ![h] = 1]
                    ELSE heap' = Append(heap, New) /\ ref' = [ref EXCEPT ![h] = Len(heap) + 1])
           /\ hist' = [hist EXCEPT ![h] = <<>>] /\ UNCHANGED <<box, boxed>>
Change(h, op, ids) == Step /\ ref[h] # None
           /\ heap' = [heap EXCEPT ![ref[h]] = IF op = "add" THEN Added(@, ids) ELSE Removed(@, ids)]
           /\ hist' = [hist EXCEPT ![h] = Append(@, <<op, ids>>)] /\ UNCHANGED <<ref, box, boxed>>
Seal(h) == Step /\ ref[h] # None /\ box' = [full |-> TRUE, set |-> heap[ref[h]]] /\ boxed' = hist[h] /\ UNCHANGED <<heap, ref, hist>>
Unseal(h) == Step /\ box.full /\ heap' = Append(heap, box.set) /\ ref' = [ref EXCEPT ![h] = Len(heap) + 1]
             /\ hist' = [hist EXCEPT ![h] = boxed] /\ UNCHANGED <<box, boxed>>
Next == \E h \in Handles : NewA(h) \/ Seal(h) \/ Unseal(h) \/ \E op \in {"add", "remove"}, ids \in Args : Change(h, op, ids)
Spec == Init /\ [][Next]_vars
(* what the calls say is in it: the last call that named it added it *)
Said(hs, x) == LET is == {i \in 1..Len(hs) : x \in Ran(hs[i][2])} IN is # {} /\ hs[CHOOSE i \in is : \A j \in is : j <= i][1] = "add"
AsSaid == \A h \in Handles : ref[h] # None => heap[ref[h]] = {x \in Ids : Said(hist[h], x)}
BoxAsSaid == box.full => box.set = {x \in Ids : Said(boxed, x)}
(* sealing: every way of combining the parts of two items under two cryptors and IDs *)
Items == {Sealed("access", b, c, s, "", k) : b \in {"o1", "o2"}, c \in {"k1", "k2"}, s \in {{}, {"x"}}, k \in {1, 2}}
OnlyWhole == n = 0 => \A c, w \in Items, b \in {"o1", "o2"}, y \in {"k1", "k2"} :
               Opens(c, w, "", b, y) <=> (c.n = w.n /\ c.content = w.content /\ c.bind = w.bind /\ c.cry = w.cry /\ b = c.bind /\ y = c.cry)
(* an identity: a group with the own ID does not lend its scopes *)
Own == n = 0 => \A s, t \in SUBSET {0, 1} : ScopeOf("u", IF 0 \in s THEN <<0>> ELSE <<>>, <<[id |-> "u", scopes |-> <<1>>]>>, "u") \subseteq {0}
===============================================================================
