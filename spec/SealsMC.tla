--------------------------------- MODULE SealsMC ---------------------------------
(* C08, C09: every kind of call, an observer that keeps everything ever written, and  *)
(* any set of master keys in the observer's hands.  Rekey: Update seals under a new   *)
(* key (FALSE: keeps the old one).  Restart: a new process draws the same "random"    *)
(* values again.  ClearList: access lists are stored as they are.                    *)
EXTENDS Seals
CONSTANTS Rekey, SameSeed, ClearList, MaxCalls, MaxRestarts, Leaks

VARIABLES seen,      \* every term ever written or handed out
          seals,     \* sequence of <<key, nonce>>
          draw,      \* the next value of the generator
          obj,       \* object -> [ver, dek, members]  (ver 0: none)
          rec,       \* every object record and access record ever written: <<"o"|"a", object, version, term set>>
          lst,       \* keyword -> sequence of identifiers
          usr,       \* user -> [pw, groups]
          grp, calls, restarts, leaked
vars == <<seen, seals, draw, obj, rec, lst, usr, grp, calls, restarts, leaked>>
O == {"o1"}
Ms == {"m1", "m2"}
W == {"w1", "w2"}
U == {"u1", "u2"}
G == {"g1"}
None == [ver |-> 0, dek |-> 0, members |-> {}]
Init == /\ seen = {} /\ seals = <<>> /\ draw = 1 /\ obj = [o \in O |-> None] /\ rec = {}
        /\ lst = [w \in W |-> <<>>] /\ usr = [u \in U |-> [pw |-> 0, groups |-> {}]] /\ grp = {}
        /\ calls = 0 /\ restarts = 0 /\ leaked \in Leaks

Put(S) == seen' = seen \cup S
Used(s) == seals' = seals \o s
Step == calls < MaxCalls /\ calls' = calls + 1 /\ UNCHANGED <<restarts, leaked>>
List(o, k, n, ms, dek) == AccessRec(o, k, n, ms, dek) \cup (IF ClearList THEN {Atom("member", m) : m \in ms} ELSE {})

Encrypt(o, ms) ==
  /\ Step /\ obj[o].ver = 0
  /\ obj' = [obj EXCEPT ![o] = [ver |-> 1, dek |-> draw, members |-> ms]]
  /\ LET a == ObjectRec(o, draw, draw + 1, 1)
         b == List(o, draw + 2, draw + 3, ms, draw)
     IN Put(a \cup b) /\ rec' = rec \cup {<<"o", o, 1, a>>, <<"a", o, 1, b>>}
  /\ Used(<<<<draw, draw + 1>>, <<draw + 2, draw + 3>>>>) /\ draw' = draw + 4
  /\ UNCHANGED <<lst, usr, grp>>
Update(o) ==
  /\ Step /\ obj[o].ver > 0
  /\ LET dek == IF Rekey THEN draw ELSE obj[o].dek
         v == obj[o].ver + 1
         a == ObjectRec(o, dek, draw + 1, v)
         b == List(o, draw + 2, draw + 3, obj[o].members, dek)
     IN /\ obj' = [obj EXCEPT ![o].ver = v, ![o].dek = dek]
        /\ Put(a \cup b) /\ rec' = rec \cup {<<"o", o, v, a>>, <<"a", o, v, b>>}
        /\ Used(<<<<dek, draw + 1>>, <<draw + 2, draw + 3>>>>)
  /\ draw' = draw + 4 /\ UNCHANGED <<lst, usr, grp>>
Regroup(o, ms) ==
  /\ Step /\ obj[o].ver > 0 /\ ms # obj[o].members
  /\ obj' = [obj EXCEPT ![o].members = ms]
  /\ LET b == List(o, draw, draw + 1, ms, obj[o].dek) IN Put(b) /\ rec' = rec \cup {<<"a", o, obj[o].ver, b>>}
  /\ Used(<<<<draw, draw + 1>>>>) /\ draw' = draw + 2 /\ UNCHANGED <<lst, usr, grp>>
Add(w) ==
  /\ Step /\ Len(lst[w]) < 2
  /\ lst' = [lst EXCEPT ![w] = Append(@, "i1")]
  /\ Put(NodeRec(w, Len(lst[w]), draw, draw + 1, "i1"))
  /\ Used(<<<<draw, draw + 1>>>>) /\ draw' = draw + 2 /\ UNCHANGED <<obj, rec, usr, grp>>
NewUser(u) ==
  /\ Step /\ usr[u].pw = 0
  /\ usr' = [usr EXCEPT ![u].pw = draw]
  /\ Put(UserRec(u, draw + 1, draw + 2, draw, {}))
  /\ Used(<<<<draw + 1, draw + 2>>>>) /\ draw' = draw + 3 /\ UNCHANGED <<obj, rec, lst, grp>>
NewPw(u) ==
  /\ Step /\ usr[u].pw > 0
  /\ usr' = [usr EXCEPT ![u].pw = draw]
  /\ Put(UserRec(u, draw + 1, draw + 2, draw, usr[u].groups))
  /\ Used(<<<<draw + 1, draw + 2>>>>) /\ draw' = draw + 3 /\ UNCHANGED <<obj, rec, lst, grp>>
NewGroup(u, g) ==
  /\ Step /\ usr[u].pw > 0 /\ g \notin grp
  /\ grp' = grp \cup {g} /\ usr' = [usr EXCEPT ![u].groups = @ \cup {g}]
  /\ Put(GroupRec(g, draw, draw + 1) \cup UserRec(u, draw + 2, draw + 3, usr[u].pw, usr[u].groups \cup {g}))
  /\ Used(<<<<draw, draw + 1>>, <<draw + 2, draw + 3>>>>) /\ draw' = draw + 4 /\ UNCHANGED <<obj, rec, lst>>
NewTok ==
  /\ Step /\ Put(TokenRec(draw, draw, draw + 1)) /\ Used(<<<<draw, draw + 1>>>>) /\ draw' = draw + 2
  /\ UNCHANGED <<obj, rec, lst, usr, grp>>
Login(u) ==
  /\ Step /\ usr[u].pw > 0 /\ Put(LoginRec(u, draw, draw, draw + 1)) /\ Used(<<<<draw, draw + 1>>>>) /\ draw' = draw + 2
  /\ UNCHANGED <<obj, rec, lst, usr, grp>>
Restart == /\ restarts < MaxRestarts /\ restarts' = restarts + 1
           /\ draw' = IF SameSeed THEN 1 ELSE draw
           /\ UNCHANGED <<seen, seals, obj, rec, lst, usr, grp, calls, leaked>>

Next == \/ \E o \in O : (\E ms \in {{"m1"}, Ms} : Encrypt(o, ms) \/ Regroup(o, ms)) \/ Update(o)
        \/ \E w \in W : Add(w)
        \/ \E u \in U : NewUser(u) \/ NewPw(u) \/ Login(u) \/ \E g \in G : NewGroup(u, g)
        \/ NewTok \/ Restart
Spec == Init /\ [][Next]_vars

(* who must be in the observer's hands for an atom of a class to be learned             *)
Guards(c) == CASE c = "payload" -> {"KEK", "AEK"} [] c = "member" -> {"AEK"}
               [] c \in {"identifier", "position"} -> {"IEK"} [] c \in {"hash", "membership"} -> {"UEK"}
               [] c = "scopes" -> {"GEK"} [] c = "contents" -> {"TEK"} [] c = "subject" -> {"LEK"} [] OTHER -> {}
Learned == Close(seen \cup {Master(k) : k \in leaked})
Secrecy == \A t \in Learned : t[1] = "atom" => Guards(t[2]) \subseteq leaked
NoKeys == leaked = {} => \A t \in Learned : t[1] # "key"
(* without keys the observer learns exactly what the layouts say                        *)
AsShown == leaked = {} => {t[2] : t \in {x \in Learned : x[1] = "atom"}} \subseteq UNION {MayShow(k) : k \in {"obj", "acc", "node", "user", "group", "token", "login"}}
FreshKeys == \A i, j \in 1..Len(seals) : i # j => seals[i][1] # seals[j][1]
FreshPairs == \A i, j \in 1..Len(seals) : i # j => seals[i] # seals[j]
(* an object record opens only with an access record of its own version                *)
OwnVersion == \A x \in rec, y \in rec :
    x[1] = "o" /\ y[1] = "a" /\ x[3] # y[3] =>
      \A t \in Close(x[4] \cup y[4] \cup {Master("AEK"), Master("KEK")}) : ~(t[1] = "atom" /\ t[2] = "payload")
===============================================================================
