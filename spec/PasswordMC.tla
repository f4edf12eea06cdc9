------------------------------- MODULE PasswordMC -------------------------------
(* C27: users with passwords, the hash as PBKDF2 has it: padded, so that trailing   *)
(* zeros vanish, over a password that is drawn without zeros; the comparison turns  *)
(* passwords ending in zeros away (Guard).  Every candidate string is tried against  *)
(* every stored salt-and-hash.                                                     *)
EXTENDS Password
CONSTANTS Chars, MaxLen, Salts, Guard
Z == "0"
RECURSIVE Strs(_)
Strs(n) == IF n = 0 THEN {<<>>} ELSE Strs(n - 1) \cup {Append(s, c) : s \in {t \in Strs(n - 1) : Len(t) = n - 1}, c \in Chars \cup {Z}}
RECURSIVE Strip(_)
Strip(s) == IF s # <<>> /\ s[Len(s)] = Z THEN Strip(SubSeq(s, 1, Len(s) - 1)) ELSE s
Hash(p, s) == <<Strip(p), s>>
VARIABLES pw, salt
Init == pw \in {s \in Strs(MaxLen) : Len(s) = MaxLen /\ \A i \in 1..MaxLen : s[i] # Z} /\ salt \in Salts
Next == UNCHANGED <<pw, salt>>
Spec == Init /\ [][Next]_<<pw, salt>>
Stored == [salt |-> salt, hash |-> Hash(pw, salt)]
Compare(p, st) == ~(Guard /\ p # <<>> /\ p[Len(p)] = Z) /\ Hash(p, st.salt) = st.hash
Own == Compare(pw, Stored)
NoOther == \A p \in Strs(MaxLen + 2) : Compare(p, Stored) => p = pw
NoOtherSalt == \A s \in Salts : Compare(pw, [Stored EXCEPT !.salt = s]) => s = salt
===============================================================================
