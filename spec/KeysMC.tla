---------------------------------- MODULE KeysMC ----------------------------------
(* C32: the rules of Keys.tla against the terms of Seals.tla: what an instance can     *)
(* take apart with its own master keys is exactly what the rules let it use.           *)
(* Shared: two purposes share one key (a design error the invariants must notice).     *)
EXTENDS Keys
CONSTANTS MaxCalls, Shared
Sl == INSTANCE Seals
VARIABLES s, mem, calls, draw   \* mem: kind of item -> the terms stored for it
vars == <<s, mem, calls, draw>>
One == [k \in Kinds |-> 1]
Insts == {One} \cup {[One EXCEPT ![k] = 2] : k \in Kinds}
(* the master key an instance uses for a purpose                                        *)
Of(i, k) == <<IF Shared /\ k = "AEK" THEN "KEK" ELSE k, IF Shared /\ k = "AEK" THEN i["KEK"] ELSE i[k]>>
W(i, k, dk) == Sl!Wrap(Of(i, k), dk)
Has(i, S) == Sl!Close(S \cup {Sl!Master(Of(i, k)) : k \in Kinds})
Init == s = Empty /\ mem = [o |-> {}, a |-> {}, u |-> {}, g |-> {}, t |-> <<>>, l |-> <<>>] /\ calls = 0 /\ draw = 1
ObjT(i, dk) == {Sl!Seal(dk, dk, {Sl!Atom("payload", 1)})}
AccT(i, dk, dek) == {W(i, "AEK", dk), Sl!Seal(dk, dk, {Sl!Atom("member", 1), dek})}
UsrT(i, dk) == {W(i, "UEK", dk), Sl!Seal(dk, dk, {Sl!Atom("hash", 1)})}
GrpT(i, dk) == {W(i, "GEK", dk), Sl!Seal(dk, dk, {Sl!Atom("scopes", 1)})}
TokT(i, k, dk) == {W(i, k, dk), Sl!Seal(dk, dk, {Sl!Atom("contents", 1)})}
(* what the code can do: it opens the records it needs with its own keys                *)
CanAcc(i) == Sl!Atom("member", 1) \in Has(i, mem.a)
CanObj(i) == CanAcc(i) /\ Sl!Atom("payload", 1) \in Has(i, mem.o \cup mem.a)
CanUsr(i) == Sl!Atom("hash", 1) \in Has(i, mem.u)
CanGrp(i) == mem.g # {} => Sl!Atom("scopes", 1) \in Has(i, mem.g)
CanTok(i, n) == n \in 1..Len(mem.t) /\ Sl!Atom("contents", 1) \in Has(i, mem.t[n])
CanLog(i, n) == n \in 1..Len(mem.l) /\ Sl!Atom("contents", 1) \in Has(i, mem.l[n])
Can(i, op, n) ==
  CASE op \in {"Encrypt", "NewUser", "CreateToken"} -> TRUE
    [] op = "Decrypt" -> CanObj(i)
    [] op \in {"Update", "GetGroups", "Delete"} -> CanAcc(i)
    [] op \in {"Login", "ChangePassword"} -> CanUsr(i)
    [] op \in {"Identity", "NewGroup"} -> CanLog(i, n) /\ CanUsr(i) /\ CanGrp(i)
    [] op = "Open" -> CanTok(i, n)
OpSet == {"Encrypt", "Update", "Decrypt", "GetGroups", "Delete", "NewUser", "Login", "ChangePassword", "Identity", "NewGroup", "CreateToken", "Open"}
Do(i, op, n) ==
  /\ calls < MaxCalls /\ calls' = calls + 1 /\ draw' = draw + 2
  /\ Can(i, op, n)
  /\ s' = After(s, i, op, n, "")
  /\ mem' = CASE op \in {"Encrypt", "Update"} -> [mem EXCEPT !.o = ObjT(i, draw), !.a = AccT(i, draw + 1, W(i, "KEK", draw))]
              [] op = "Delete" -> [mem EXCEPT !.o = {}, !.a = {}]
              [] op = "NewUser" -> [mem EXCEPT !.u = UsrT(i, draw), !.g = {}, !.l = <<>>]
              [] op = "ChangePassword" -> [mem EXCEPT !.u = UsrT(i, draw)]
              [] op = "NewGroup" -> [mem EXCEPT !.g = GrpT(i, draw), !.u = UsrT(i, draw + 1)]
              [] op = "Login" -> [mem EXCEPT !.l = Append(@, TokT(i, "LEK", draw))]
              [] op = "CreateToken" -> [mem EXCEPT !.t = Append(@, TokT(i, "TEK", draw))]
              [] OTHER -> mem
Next == \E i \in Insts, op \in OpSet, n \in 0..2 :
   /\ (op \in {"Identity", "NewGroup", "Open"}) = (n > 0)
   /\ op \in {"Login"} => Len(mem.l) < 2
   /\ op \in {"CreateToken"} => Len(mem.t) < 2
   /\ Do(i, op, n)
Spec == Init /\ [][Next]_vars
Agree == \A i \in Insts, op \in OpSet, n \in 0..2 : (op \in {"Identity", "NewGroup", "Open"}) = (n > 0) => (Can(i, op, n) <=> Ok(s, i, op, n))
===============================================================================
