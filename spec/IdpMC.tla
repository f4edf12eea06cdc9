--------------------------------- MODULE IdpMC ---------------------------------
(* The stored records behind Idp and the order in which calls write them; a call   *)
(* may stop before or after any of its writes. With edits, an adversary puts       *)
(* records (or fields of them) of one ID under another, or older ones back.        *)
(* GroupFirst = FALSE: NewGroup writes the membership before the group.            *)
(* Bound = FALSE: the ID inside a record is not checked against the one asked for. *)
EXTENDS Idp
CONSTANTS Uids, Gids, Pws, MaxCalls, MaxFaults, MaxEdits, GroupFirst, Bound
VARIABLES su, sg,       \* stored records: Uid -> {} or {[for, u]}, Gid -> {} or {gid}
          bel,          \* Uid -> the users allowed by the calls made so far
          calls, faults, edits, logins, ever
vars == <<su, sg, bel, calls, faults, edits, logins, ever>>

Init == /\ su = [u \in Uids |-> {}] /\ sg = [g \in Gids |-> {}] /\ bel = [u \in Uids |-> {Absent}]
        /\ calls = 0 /\ faults = 0 /\ edits = 0 /\ logins = {} /\ ever = [u \in Uids |-> {}]

Corrupt == User({"corrupt"}, {}, 0)
Got(u) == IF su[u] = {} THEN Absent
          ELSE LET r == CHOOSE x \in su[u] : TRUE IN IF ~Bound \/ r.for = u THEN r.u ELSE Corrupt
Readable(u) == su[u] # {} /\ Got(u) # Corrupt
Rec(u, x) == {[for |-> u, u |-> x]}
GroupGood(g) == sg[g] # {} /\ (~Bound \/ sg[g] = {g})
IdentityOk(u) == Readable(u) /\ \A g \in Got(u)[1].gr : GroupGood(g)

UsedPws == UNION {{v[1].pw : v \in ever[u]} : u \in Uids}

(* ws: writes <<kind, id, record>> in order; what each user may be afterwards: full / part *)
RECURSIVE ApplyU(_, _, _), ApplyG(_, _, _)
ApplyU(s, ws, k) == IF k = 0 THEN s ELSE LET p == ApplyU(s, ws, k - 1) IN
  IF ws[k][1] = "u" THEN [p EXCEPT ![ws[k][2]] = ws[k][3]] ELSE p
ApplyG(s, ws, k) == IF k = 0 THEN s ELSE LET p == ApplyG(s, ws, k - 1) IN
  IF ws[k][1] = "g" THEN [p EXCEPT ![ws[k][2]] = ws[k][3]] ELSE p

Do(ws, target, after) ==
  /\ calls < MaxCalls /\ calls' = calls + 1 /\ UNCHANGED <<edits>>
  /\ \E k \in 0..Len(ws) :
     /\ k < Len(ws) => faults < MaxFaults
     /\ \E f \in IF k = Len(ws) THEN {0, 1} ELSE {1} :
        /\ faults + f <= MaxFaults /\ faults' = faults + f
        /\ su' = ApplyU(su, ws, k) /\ sg' = ApplyG(sg, ws, k)
        /\ bel' = [bel EXCEPT ![target] = IF f = 0 THEN {after} ELSE @ \cup {after}]
        /\ ever' = [ever EXCEPT ![target] = @ \cup (IF Alive(after) THEN {after} ELSE {})]

NewUser(u) == /\ su[u] = {} /\ bel[u] = {Absent} /\ ever[u] = {}
              /\ \E p \in Pws \ UsedPws : Do(<<<<"u", u, Rec(u, User({}, {}, p))>>>>, u, User({}, {}, p)) /\ logins' = {}
ChangePw(u) == Readable(u) /\ \E p \in Pws \ UsedPws :
                 LET x == WithPw(Got(u), p) IN Do(<<<<"u", u, Rec(u, x)>>>>, u, x) /\ logins' = {<<u, Got(u)[1].pw>>}
Change(c, t, gs, add) ==
  /\ IdentityOk(c) /\ Readable(t) /\ MayChange(Got(c), Got(t), gs)
  /\ LET x == IF add THEN WithGroups(Got(t), gs) ELSE WithoutGroups(Got(t), gs)
     IN Do(<<<<"u", t, Rec(t, x)>>>>, t, x) /\ logins' = {}
Delete(c, t) == IdentityOk(c) /\ Do(<<<<"u", t, {}>>>>, t, Absent) /\ logins' = {}
NewGroup(c, g) ==
  /\ IdentityOk(c) /\ sg[g] = {} /\ \A u \in Uids : \A x \in bel[u] : g \notin Grp(x)
  /\ LET x == WithGroups(Got(c), {g})
         a == <<"g", g, {g}>>
         b == <<"u", c, Rec(c, x)>>
     IN Do(IF GroupFirst THEN <<a, b>> ELSE <<b, a>>, c, x) /\ logins' = {}
Login(u) == /\ Readable(u) /\ logins' = {<<u, Got(u)[1].pw>>} /\ UNCHANGED <<su, sg, bel, calls, faults, edits, ever>>

Transplant == /\ edits < MaxEdits /\ edits' = edits + 1
              /\ \/ \E u \in Uids, v \in Uids : \E r \in su[v] : su' = [su EXCEPT ![u] = {r}] /\ UNCHANGED sg
                 \/ \E u \in Uids : \E x \in ever[u] : su' = [su EXCEPT ![u] = Rec(u, x)] /\ UNCHANGED sg
                 \/ \E g, h \in Gids : sg[g] # {} /\ sg' = [sg EXCEPT ![h] = sg[g]] /\ UNCHANGED su
              /\ logins' = {} /\ UNCHANGED <<bel, calls, faults, ever>>

Next == \/ \E u \in Uids : NewUser(u) \/ ChangePw(u) \/ Login(u)
        \/ \E c, t \in Uids, gs \in SUBSET Gids, add \in BOOLEAN : gs # {} /\ Change(c, t, gs, add)
        \/ \E c, t \in Uids : Delete(c, t)
        \/ \E c \in Uids, g \in Gids : NewGroup(c, g)
        \/ Transplant
Spec == Init /\ [][Next]_vars

(* C17-C19: what is stored is what the calls made *)
Exact == edits = 0 => \A u \in Uids : Got(u) \in bel[u]
(* C18, C19: every existing user can obtain its identity *)
Usable == edits = 0 => \A u \in Uids : su[u] # {} => IdentityOk(u)
(* C17, C20: a password works only for the user it was issued to *)
OwnPw == \A l \in logins : \E x \in ever[l[1]] : x[1].pw = l[2]
(* C20: what calls read of a user was sealed for that user *)
OwnData == \A u \in Uids : Readable(u) => Got(u) \in ever[u]
===============================================================================
