------------------------------- MODULE IndexMC -------------------------------
(* The linked chain behind one keyword, with the writes each call performs in  *)
(* order; a call may stop after any of them (failing storage, crash).          *)
(* Fixed = FALSE is the algorithm before the repair of Add: it lets a left-over *)
(* node of an interrupted Delete come back to life (GhostFree is violated).     *)
EXTENDS Index
CONSTANTS Ids, MaxC, MaxCalls, MaxFaults, Fixed
VARIABLES store, allowed, calls, faults
vars == <<store, allowed, calls, faults>>

Node(c) == CHOOSE x \in store[c] : TRUE
RECURSIVE LastNext(_)
LastNext(c) == IF store[c] = {} THEN c ELSE LastNext(Node(c).next)
RECURSIVE Free(_)
Free(c) == IF c \in DOMAIN store /\ store[c] # {} THEN Free(c + 1) ELSE c

(* the writes of a call: <<counter, new content>> *)
AddWrites(id) == LET c == LastNext(0)
                     nx == IF Fixed THEN Free(c + 1) ELSE c + 1
                 IN <<<<c, {[id |-> id, next |-> nx]}>>>>

(* Delete walks the chain; s is the store as changed so far by this call *)
RECURSIVE DelWrites(_, _, _)
DelWrites(s, c, id) ==
  IF s[c] = {} THEN <<>>
  ELSE LET n == CHOOSE x \in s[c] : TRUE IN
       IF n.id # id THEN DelWrites(s, n.next, id)
       ELSE IF s[n.next] = {} THEN <<<<c, {}>>>>
       ELSE <<<<c, s[n.next]>>, <<n.next, {}>>>>
            \o DelWrites([s EXCEPT ![c] = s[n.next], ![n.next] = {}], c, id)

RECURSIVE Apply(_, _, _)
Apply(s, ws, k) == IF k = 0 THEN s ELSE LET p == Apply(s, ws, k - 1) IN [p EXCEPT ![ws[k][1]] = ws[k][2]]

Init == store = [c \in 0..MaxC |-> {}] /\ allowed = {<<>>} /\ calls = 0 /\ faults = 0

Do(ws, full, partial) ==
  /\ calls < MaxCalls /\ calls' = calls + 1
  /\ \/ /\ store' = Apply(store, ws, Len(ws)) /\ allowed' = full /\ faults' = faults
     \/ /\ faults < MaxFaults /\ faults' = faults + 1
        /\ \E k \in 0..Len(ws) : store' = Apply(store, ws, k)
        /\ allowed' = partial

InRange(ws) == \A i \in DOMAIN ws : ws[i][1] < MaxC /\ \A n \in ws[i][2] : n.next < MaxC
Add(id) == /\ InRange(AddWrites(id))
           /\ Do(AddWrites(id), {AfterAdd(s, id) : s \in {Chain(store)}}, {Chain(store), AfterAdd(Chain(store), id)})
Del(id) == Do(DelWrites(store, 0, id), {AfterDelete(Chain(store), id)}, Drop(Chain(store), id))
Next == \E id \in Ids : Add(id) \/ Del(id)
Spec == Init /\ [][Next]_vars

(* C12, C14: what Search returns is what the calls made; nothing lost, duplicated or revived *)
Exact == Chain(store) \in allowed
(* no live node is reached twice, no pointer leads outside *)
Bounded == \A c \in DOMAIN store : \A n \in store[c] : n.next > c
=============================================================================
