----------------------------------- MODULE Keys -----------------------------------
(* Master keys: what each component needs, and which data an instance can use.         *)
(* An instance is a function from the kinds of keys to key values (numbers).           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Kinds == {"KEK", "AEK", "TEK", "IEK", "UEK", "GEK", "LEK"}
KeyLength == 32
Needs(comp) == CASE comp = "d1" -> {"KEK", "AEK", "TEK"}
                 [] comp = "index" -> {"IEK"}
                 [] comp = "standalone" -> {"UEK", "GEK", "LEK"}
                 [] comp = "cryptor" -> {"KEK"}
UsesProvider(comp) == comp \in {"d1", "index"}
Creates(comp, len, prov) == (UsesProvider(comp) => prov) /\ \A k \in Needs(comp) : len[k] = KeyLength

(* One object, one keyword, one user with at most one group, tokens.                    *)
NoObj == [live |-> FALSE, kek |-> 0, aek |-> 0, pay |-> ""]
NoUser == [live |-> FALSE, uek |-> 0, gek |-> 0]
Empty == [obj |-> NoObj, lists |-> <<>>, usr |-> NoUser, toks |-> <<>>, logins |-> <<>>]
ListOf(s, iek) == SelectSeq(s.lists, LAMBDA x : x[1] = iek)
IdsOf(s, iek) == {ListOf(s, iek)[j][2] : j \in 1..Len(ListOf(s, iek))}
ReadsAcc(s, k) == s.obj.live /\ s.obj.aek = k["AEK"]
ReadsObj(s, k) == ReadsAcc(s, k) /\ s.obj.kek = k["KEK"]
ReadsUser(s, k) == s.usr.live /\ s.usr.uek = k["UEK"]
ReadsIdentity(s, k, n) == /\ n \in 1..Len(s.logins) /\ s.logins[n] = k["LEK"] /\ ReadsUser(s, k)
                          /\ (s.usr.gek # 0 => s.usr.gek = k["GEK"])
(* may the call succeed, and the state after it                                          *)
Ok(s, k, op, n) ==
  CASE op \in {"Encrypt", "Add", "NewUser", "CreateToken", "Search"} -> TRUE
    [] op = "Decrypt" -> ReadsObj(s, k)
    [] op \in {"Update", "GetGroups", "Authorize", "AddGroups", "Delete"} -> ReadsAcc(s, k)
    [] op \in {"Login", "ChangePassword"} -> ReadsUser(s, k)
    [] op \in {"Identity", "NewGroup"} -> ReadsIdentity(s, k, n)
    [] op = "Open" -> n \in 1..Len(s.toks) /\ s.toks[n][1] = k["TEK"]
After(s, k, op, n, pay) ==
  IF ~Ok(s, k, op, n) THEN s
  ELSE CASE op = "Encrypt" -> [s EXCEPT !.obj = [live |-> TRUE, kek |-> k["KEK"], aek |-> k["AEK"], pay |-> pay]]
         [] op = "Update" -> [s EXCEPT !.obj = [live |-> TRUE, kek |-> k["KEK"], aek |-> k["AEK"], pay |-> pay]]
         [] op = "Delete" -> [s EXCEPT !.obj = NoObj]
         [] op = "Add" -> [s EXCEPT !.lists = Append(@, <<k["IEK"], pay>>)]
         [] op = "NewUser" -> [s EXCEPT !.usr = [live |-> TRUE, uek |-> k["UEK"], gek |-> 0], !.logins = <<>>]
         [] op = "NewGroup" -> [s EXCEPT !.usr.gek = k["GEK"]]
         [] op = "Login" -> [s EXCEPT !.logins = Append(@, k["LEK"])]
         [] op = "CreateToken" -> [s EXCEPT !.toks = Append(@, <<k["TEK"], pay>>)]
         [] OTHER -> s
===============================================================================
