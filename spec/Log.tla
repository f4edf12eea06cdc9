------------------------------------ MODULE Log ------------------------------------
(* What the library logs.  A log line comes from a call (the innermost of a stack of   *)
(* nested calls) and carries the fields of the caller's logger followed by the fields   *)
(* that the calls of the stack have added.                                            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Ops == {"Encrypt", "Update", "Decrypt", "Delete", "CreateToken", "Open", "GetGroups", "AddGroups", "RemoveGroups", "Authorize",
        "Add", "Search", "DeleteEntry", "GetIdentity", "NewUser", "Login", "ChangePassword", "Join", "Leave", "DeleteUser", "NewGroup",
        "New", "NewIndex"}
Method(op) ==
  CASE op = "Encrypt" -> "encrypt" [] op = "Update" -> "update" [] op = "Decrypt" -> "decrypt" [] op = "Delete" -> "delete"
    [] op = "CreateToken" -> "create token" [] op = "Open" -> "get token contents" [] op = "GetGroups" -> "get access groups"
    [] op = "AddGroups" -> "add groups to access" [] op = "RemoveGroups" -> "remove groups from access" [] op = "Authorize" -> "authorize identity"
    [] op = "Add" -> "add" [] op = "Search" -> "search" [] op = "DeleteEntry" -> "delete" [] op = "GetIdentity" -> "get identity"
    [] op = "NewUser" -> "new user" [] op = "Login" -> "login user" [] op = "ChangePassword" -> "change password"
    [] op = "Join" -> "add user to group" [] op = "Leave" -> "remove user from group" [] op = "DeleteUser" -> "delete user"
    [] op = "NewGroup" -> "new group" [] OTHER -> ""
(* calls of the standalone provider that authenticate their caller by themselves        *)
Authenticates(op) == op \in {"Join", "Leave", "DeleteUser", "NewGroup"}
(* calls that name an object, calls whose caller is identified                          *)
NamesObject(op) == op \in {"Encrypt", "Update", "Decrypt", "Delete", "GetGroups", "AddGroups", "RemoveGroups", "Authorize"}
Named(stack) == SelectSeq([j \in 1..Len(stack) |-> Method(stack[j])], LAMBDA m : m # "")
RECURSIVE Squeeze(_)
Squeeze(q) == IF Len(q) <= 1 THEN q ELSE IF q[1] = q[2] THEN Squeeze(Tail(q)) ELSE <<q[1]>> \o Squeeze(Tail(q))
Prefixes(q) == {SubSeq(q, 1, k) : k \in 0..Len(q)}
(* the method fields a line of the innermost call of the stack may carry                *)
MethodsOk(stack, ms) == LET n == Named(stack) q == Squeeze(ms)
                        IN q \in Prefixes(n) \/ (Authenticates(stack[Len(stack)]) /\ q = Append(n, Method("GetIdentity")))
(* ... when the innermost call itself is known to be at work                            *)
MethodsExact(stack, ms) == Squeeze(ms) \in {Named(stack), <<>>}
All(q, x) == \A j \in 1..Len(q) : q[j] = x
===============================================================================
