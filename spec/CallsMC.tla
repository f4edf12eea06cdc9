---------------------------------- MODULE CallsMC ---------------------------------
(* Overlapping calls as sequences of requests to the providers. Each is first           *)
(* authenticated, then works on storage; its context may end at any time, and storage   *)
(* fails requests under an ended context, or at will. A failed request may be made again. *)
(* Late: the last request is left to be done after the return. Detached: storage is      *)
(* asked under a context of the library's own. Hidden: failures are reported without     *)
(* their cause.  The invariants must notice each.                                        *)
EXTENDS Calls
CONSTANTS N, Steps, Late, Detached, Hidden
VARIABLES r, pc, over, late, bad, tokens
vars == <<r, pc, over, late, bad, tokens>>
Callers == 1..N
Init == r = Idle /\ pc = [k \in Callers |-> 0] /\ over = [k \in Callers |-> FALSE] /\ late = {} /\ bad = {} /\ tokens = [k \in Callers |-> k]
Begins(k) == pc[k] = 0 /\ pc' = [pc EXCEPT ![k] = 1] /\ r' = Begin(r, k, tokens[k], 1) /\ UNCHANGED <<over, late, bad, tokens>>
Ends(k) == ~over[k] /\ pc[k] > 0 /\ over' = [over EXCEPT ![k] = TRUE] /\ r' = (IF k \in DOMAIN r THEN Ended(r, k) ELSE r) /\ UNCHANGED <<pc, late, bad, tokens>>
Ctx(k) == IF Detached /\ pc[k] > 1 THEN 0 ELSE k
(* one request: f says whether it fails *)
Asks(k) == \E f \in BOOLEAN :
  /\ pc[k] \in 1..Steps
  /\ (over[k] /\ Ctx(k) = k /\ pc[k] > 1) => f
  /\ bad' = bad \cup (IF MayAsk(r, Ctx(k), 0, IF pc[k] = 1 THEN "idp" ELSE "io", tokens[k], IF Ctx(k) = k THEN 1 ELSE 0, IF Ctx(k) = k THEN over[k] ELSE FALSE) THEN {} ELSE {"ask"})
  /\ r' = Answered(Asked(r, k), k, pc[k], f /\ pc[k] > 1)
  /\ \E again \in BOOLEAN : pc' = [pc EXCEPT ![k] = IF f THEN (IF again THEN pc[k] ELSE Steps + 2) ELSE IF Late /\ pc[k] = Steps - 1 THEN Steps + 3 ELSE pc[k] + 1]
  /\ UNCHANGED <<over, late, tokens>>
Done == Steps + 4
Returns(k) ==
  /\ pc[k] \in {Steps + 1, Steps + 2, Steps + 3}
  /\ bad' = bad \cup (IF MayReturn(r, k, IF pc[k] = Steps + 2 THEN "error" ELSE "ok", ~Hidden) THEN {} ELSE {"return"})
  /\ late' = (IF pc[k] = Steps + 3 THEN late \cup {k} ELSE late)
  /\ r' = Return(r, k) /\ pc' = [pc EXCEPT ![k] = Done] /\ UNCHANGED <<over, tokens>>
Lag(k) == k \in late /\ late' = late \ {k} /\ bad' = bad \cup (IF MayAsk(r, k, 0, "io", 0, 1, over[k]) THEN {} ELSE {"late"}) /\ UNCHANGED <<r, pc, over, tokens>>
Again(k) == pc[k] = Done /\ k \notin late /\ pc' = [pc EXCEPT ![k] = 0] /\ over' = [over EXCEPT ![k] = FALSE] /\ tokens' = [tokens EXCEPT ![k] = IF @ > N THEN @ - N ELSE @ + N] /\ UNCHANGED <<r, late, bad>>
Next == \E k \in Callers : Begins(k) \/ Ends(k) \/ Asks(k) \/ Returns(k) \/ Lag(k) \/ Again(k)
Spec == Init /\ [][Next]_vars
Proper == bad = {}
(* nothing is left of a call once it has returned                                         *)
Gone == \A k \in Callers : pc[k] \in {0, Done} => k \notin DOMAIN r
==================================================================================
