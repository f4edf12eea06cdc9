----------------------------------- MODULE LogMC -----------------------------------
(* C31: two callers share one logger; each call copies it, adds fields to its copy,     *)
(* authenticates through a nested call that does the same, and logs.  A logger is a     *)
(* piece of memory and a length; adding a field writes behind the end when there is     *)
(* room.  Copy: "deep" (own memory), "shallow" (the same memory), "none" (no copy).     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Copy, Callers, Room, Rounds
VARIABLES mem,    \* memory block -> contents (Room fields each)
          lg,     \* logger -> [m, len]; logger 0 is the callers' own
          pc, round, lines, next
vars == <<mem, lg, pc, round, lines, next>>
(* loggers: 0 the shared one; 10*c the call's, 10*c+1 the nested call's                  *)
O(c) == IF Copy = "none" THEN 0 ELSE 10 * c
I(c) == IF Copy = "none" THEN 0 ELSE 10 * c + 1
Blank == [j \in 1..Room |-> "-"]
Init == /\ mem = [m \in {0} |-> [Blank EXCEPT ![1] = "base"]]
        /\ lg = [l \in {0} |-> [m |-> 0, len |-> 1]]
        /\ pc = [c \in Callers |-> "start"] /\ round = [c \in Callers |-> 0] /\ lines = {} /\ next = 1
F(c, what) == what \o ToString(c) \o "." \o ToString(round[c])
Fields(l) == [j \in 1..lg[l].len |-> mem[lg[l].m][j]]
MakeCopy(c, from, to) ==
  CASE Copy = "none" -> UNCHANGED <<mem, lg, next>>
    [] Copy = "shallow" -> /\ lg' = (to :> lg[from]) @@ lg /\ UNCHANGED <<mem, next>>
    [] Copy = "deep" -> /\ lg' = (to :> [m |-> next, len |-> lg[from].len]) @@ lg
                        /\ mem' = (next :> mem[lg[from].m]) @@ mem /\ next' = next + 1
AddField(l, f) == /\ lg[l].len < Room
                  /\ mem' = [mem EXCEPT ![lg[l].m][lg[l].len + 1] = f]
                  /\ lg' = [lg EXCEPT ![l].len = @ + 1] /\ UNCHANGED next
Emit(c, l, want) == lines' = lines \cup {[got |-> Fields(l), want |-> want]} /\ UNCHANGED <<mem, lg, next>>
Go(c, p) == pc' = [pc EXCEPT ![c] = p]
Step(c) ==
  \/ pc[c] = "start" /\ round[c] < Rounds /\ MakeCopy(c, 0, O(c)) /\ Go(c, "method") /\ UNCHANGED <<round, lines>>
  \/ pc[c] = "method" /\ AddField(O(c), F(c, "m")) /\ Go(c, "enter") /\ UNCHANGED <<round, lines>>
  \/ pc[c] = "enter" /\ MakeCopy(c, O(c), I(c)) /\ Go(c, "inner") /\ UNCHANGED <<round, lines>>
  \/ pc[c] = "inner" /\ AddField(I(c), F(c, "i")) /\ Go(c, "logi") /\ UNCHANGED <<round, lines>>
  \/ pc[c] = "logi" /\ Emit(c, I(c), <<"base", F(c, "m"), F(c, "i")>>) /\ Go(c, "uid") /\ UNCHANGED round
  \/ pc[c] = "uid" /\ AddField(O(c), F(c, "u")) /\ Go(c, "logo") /\ UNCHANGED <<round, lines>>
  \/ pc[c] = "logo" /\ Emit(c, O(c), <<"base", F(c, "m"), F(c, "u")>>) /\ Go(c, "start") /\ round' = [round EXCEPT ![c] = @ + 1]
Next == \E c \in Callers : Step(c)
Spec == Init /\ [][Next]_vars
Lines == \A x \in lines : x.got = x.want
Caller == Fields(0) = <<"base">>
===============================================================================
