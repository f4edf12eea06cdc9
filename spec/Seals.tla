---------------------------------- MODULE Seals ----------------------------------
(* What the library hands to the storage provider and to callers, as terms: atoms    *)
(* (things with a meaning), keys, seals (authenticated encryption of a set of terms   *)
(* under a key with a nonce), wrapped keys and tags.  An observer knows every term     *)
(* ever written and takes them apart as far as the keys it knows allow.               *)
EXTENDS Naturals, FiniteSets, Sequences, TLC

Atom(c, n) == <<"atom", c, n>>
Key(n) == <<"key", n>>
Master(m) == <<"master", m>>
Seal(k, nonce, S) == <<"seal", k, nonce, S>>
Wrap(kek, k) == <<"wrap", kek, k>>
Tag(k, x) == <<"tag", k, x>>

Masters == {"KEK", "AEK", "TEK", "IEK", "UEK", "GEK", "LEK"}   \* LEK: the standalone provider's token key

Open1(S) == S \cup UNION {t[4] : t \in {x \in S : x[1] = "seal" /\ Key(x[2]) \in S}}
              \cup {Key(t[3]) : t \in {x \in S : x[1] = "wrap" /\ Master(x[2]) \in S}}
RECURSIVE Close(_)
Close(S) == LET T == Open1(S) IN IF T = S THEN S ELSE Close(T)

(* the layout of each kind of record; k and n are the data key and the nonce, dek the  *)
(* object's own data key                                                              *)
ObjectRec(o, k, n, pay) == {Seal(k, n, {Atom("payload", pay)}), Atom("ad", pay), Atom("oid", o)}
AccessRec(o, k, n, members, dek) == {Wrap("AEK", k), Seal(k, n, {Atom("member", m) : m \in members} \cup {Wrap("KEK", dek)}), Atom("oid", o)}
NodeRec(kw, pos, k, n, ident) == {Tag("IEK", <<kw, pos>>), Wrap("IEK", k), Seal(k, n, {Atom("identifier", ident), Atom("position", pos)})}
UserRec(u, k, n, pw, groups) == {Atom("uid", u), Wrap("UEK", k), Seal(k, n, {Atom("hash", pw)} \cup {Atom("membership", g) : g \in groups})}
GroupRec(g, k, n) == {Atom("gid", g), Wrap("GEK", k), Seal(k, n, {Atom("scopes", g)})}
TokenRec(t, k, n) == {Wrap("TEK", k), Seal(k, n, {Atom("contents", t)}), Atom("expiry", t)}
LoginRec(u, t, k, n) == {Wrap("LEK", k), Seal(k, n, {Atom("subject", u)}), Atom("expiry", t)}

(* what each kind of record shows to an observer without keys: its atoms, by class     *)
Shown(S) == {t[2] : t \in {x \in Close(S) : x[1] = "atom"}}
Example(kind) ==
  CASE kind = "obj" -> ObjectRec("o", 1, 2, "p")
    [] kind = "acc" -> AccessRec("o", 1, 2, {"m"}, 3)
    [] kind = "node" -> NodeRec("w", 0, 1, 2, "i")
    [] kind = "user" -> UserRec("u", 1, 2, "pw", {"g"})
    [] kind = "group" -> GroupRec("g", 1, 2)
    [] kind = "token" -> TokenRec("t", 1, 2)
    [] kind = "login" -> LoginRec("u", 9, 1, 2)
    [] OTHER -> {}
MayShow(kind) == Shown(Example(kind))
===============================================================================
