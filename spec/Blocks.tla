--------------------------------- MODULE Blocks ---------------------------------
(* C36: the exported building blocks of packages data and id as values.             *)
(* An access is a set of group IDs; a sealed item is the term of everything it was   *)
(* sealed from; scopes are sets of bits; an identity is its own ID with scopes and   *)
(* a map from group IDs to scopes.                                                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Ran(s) == {s[i] : i \in 1..Len(s)}
New == {}
Added(s, ids) == s \cup Ran(ids)
Removed(s, ids) == s \ Ran(ids)
Contains(s, ids) == Ran(ids) \subseteq s
(* sealed items: kind, bind (the object ID or label), cry (the cryptor), content, open (what is
   stored in the clear beside it), n (every sealing is another) *)
Sealed(kind, bind, cry, content, open, n) == [kind |-> kind, bind |-> bind, cry |-> cry, content |-> content, open |-> open, n |-> n]
(* parts: an item put together from the ciphertext of c, the wrapped key of w, what is in the clear in o *)
Opens(c, w, open, bind, cry) == c = w /\ open = c.open /\ bind = c.bind /\ cry = c.cry
ScopeHas(a, b) == b \subseteq a
IDs(own, groups) == {own} \cup {groups[i].id : i \in 1..Len(groups)}
ScopeOf(own, scopes, groups, x) ==
  IF x = own THEN Ran(scopes)
  ELSE LET is == {i \in 1..Len(groups) : groups[i].id = x} IN IF is = {} THEN {} ELSE Ran(groups[CHOOSE i \in is : TRUE].scopes)
===============================================================================
