---------------------------------- MODULE Idp ----------------------------------
(* The standalone identity provider: users with scopes, groups and a password;    *)
(* groups with scopes; login tokens.                                              *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Rng(s) == {s[i] : i \in DOMAIN s}

(* A user is <<>> (absent) or <<[sc, gr, pw]>> *)
Absent == <<>>
User(sc, gr, pw) == <<[sc |-> sc, gr |-> gr, pw |-> pw]>>
Alive(u) == u # Absent
Grp(u) == IF Alive(u) THEN u[1].gr ELSE {}
WithGroups(u, gs) == <<[u[1] EXCEPT !.gr = @ \cup gs]>>
WithoutGroups(u, gs) == <<[u[1] EXCEPT !.gr = @ \ gs]>>
WithPw(u, p) == <<[u[1] EXCEPT !.pw = p]>>

LoginOk(u, pw) == Alive(u) /\ u[1].pw = pw
(* may caller c change the membership of target t in gs? *)
MayChange(c, t, gs) == Alive(c) /\ gs \subseteq Grp(c) /\ Alive(t)
===============================================================================
