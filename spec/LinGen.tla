--------------------------------- MODULE LinGen --------------------------------
(* Which calls overlap in which state: every pair (or triple) of calls of an       *)
(* alphabet from every starting state.                                             *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Kind, K

CallI(kind, op, by, gs, id, uid, i) == [step |-> "call", kind |-> kind, op |-> op, i |-> i, by |-> by, gs |-> gs, id |-> id, uid |-> uid, pw |-> ""]
Call(op, by, gs, id, uid) == CallI(Kind, op, by, gs, id, uid, 0)
Of(kind, calls) == [i \in DOMAIN calls |-> [calls[i] EXCEPT !.kind = kind]]
ObjCalls == <<
  Call("Update", "a", <<>>, "", ""), Call("Update", "b", <<>>, "", ""), Call("Decrypt", "b", <<>>, "", ""), Call("Decrypt", "m", <<>>, "", ""),
  Call("Delete", "a", <<>>, "", ""), Call("Delete", "b", <<>>, "", ""), Call("GetAccessGroups", "a", <<>>, "", ""),
  Call("AddGroupsToAccess", "a", <<"b", "g">>, "", ""), Call("AddGroupsToAccess", "b", <<"c">>, "", ""),
  Call("RemoveGroupsFromAccess", "a", <<"b">>, "", ""), Call("RemoveGroupsFromAccess", "a", <<"g">>, "", ""), Call("RemoveGroupsFromAccess", "b", <<"a">>, "", ""),
  Call("AuthorizeIdentity", "b", <<>>, "", "")>>
IdxCalls == <<
  Call("Add", "", <<>>, "4", ""), Call("Add", "", <<>>, "1", ""), Call("DeleteEntry", "", <<>>, "1", ""), Call("DeleteEntry", "", <<>>, "2", ""),
  Call("DeleteEntry", "", <<>>, "3", ""), Call("Search", "", <<>>, "", "")>>
IdpCalls == <<
  Call("AddUserToGroups", "a", <<"h">>, "", "b"), Call("AddUserToGroups", "a", <<"g">>, "", "c"), Call("AddUserToGroups", "b", <<"g">>, "", "c"), Call("AddUserToGroups", "b", <<"g">>, "", "a"),
  Call("RemoveUserFromGroups", "a", <<"g">>, "", "b"), Call("RemoveUserFromGroups", "b", <<"g">>, "", "a"), Call("RemoveUserFromGroups", "a", <<"h">>, "", "a"),
  Call("NewGroup", "a", <<>>, "", ""), Call("NewGroup", "b", <<>>, "", ""), Call("DeleteUser", "a", <<>>, "", "b"), Call("DeleteUser", "b", <<>>, "", "b"),
  Call("GetIdentity", "b", <<>>, "", ""), Call("ChangePw", "", <<>>, "", "b"), Call("ChangePw", "", <<>>, "", "a"), Call("Login", "", <<>>, "", "b")>>
FunCalls == << Call("Seal", "", <<>>, "s3", ""), CallI("fun", "Open", "", <<>>, "", "", 1), Call("Same", "", <<>>, "tag", ""), Call("Same", "", <<>>, "kdf", ""),
  Call("Same", "", <<>>, "kwp", ""), Call("Same", "", <<>>, "tok", ""), Call("Same", "", <<>>, "rnd", "")>>
(* calls on unrelated items (C28) *)
Apart == Of("obj", ObjCalls \o <<Call("Encrypt", "a", <<"g">>, "", ""), Call("Encrypt", "b", <<>>, "", "")>>) \o Of("idx", IdxCalls) \o Of("idp", IdpCalls \o <<Call("NewUser", "", <<>>, "", "d")>>) \o Of("fun", FunCalls)
Calls == CASE Kind = "indep" -> Apart [] Kind = "obj" -> ObjCalls [] Kind = "idx" -> IdxCalls [] Kind = "idp" -> IdpCalls

Setup(gs, seq) == [step |-> "setup", kind |-> Kind, gs |-> gs, seq |-> seq]
Setups == CASE Kind = "obj" -> <<Setup(<<"b">>, <<>>), Setup(<<>>, <<>>), Setup(<<"b", "g">>, <<>>)>>
            [] Kind = "idx" -> <<Setup(<<>>, <<>>), Setup(<<>>, <<"1">>), Setup(<<>>, <<"1", "2">>), Setup(<<>>, <<"1", "2", "3">>), Setup(<<>>, <<"1", "1">>),
                                 Setup(<<>>, <<"1", "2", "1">>), Setup(<<>>, <<"2", "1", "3", "1">>)>>
            [] Kind = "idp" -> <<Setup(<<>>, <<>>)>>

VARIABLE at   \* the number of the starting state and of the calls chosen so far
Edge(l) == PrintT("@E " \o ToJson([f |-> ToString(at), t |-> ToString(at'), l |-> l]))
Init == at = IF Kind = "indep" THEN <<0>> ELSE <<>>
Next == \/ \E i \in (IF at = <<>> THEN DOMAIN Setups ELSE {}) : at' = <<i>> /\ Edge(Setups[i])
        \/ \E j \in DOMAIN Calls : /\ at # <<>> /\ Len(at) <= K /\ (Len(at) > 1 => j >= at[Len(at)])
                                   /\ at' = at \o <<j>> /\ Edge(Calls[j])
Spec == Init /\ [][Next]_at
===============================================================================
