-------------------------------- MODULE Index --------------------------------
(* The secure index: per keyword a sequence of identifiers.                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Rng(s) == {s[i] : i \in DOMAIN s}

(* what calls mean *)
AfterAdd(seq, id) == Append(seq, id)
AfterDelete(seq, id) == SelectSeq(seq, LAMBDA x : x # id)

(* what a failing call may leave: Add -- before or after; Delete -- before, or *)
(* with any of the matching occurrences gone                                   *)
RECURSIVE Drop(_, _)
Drop(seq, id) ==   \* all sequences obtained by leaving out some occurrences of id
  IF seq = <<>> THEN {<<>>}
  ELSE LET rest == Drop(Tail(seq), id)
           keep == {<<Head(seq)>> \o r : r \in rest}
       IN IF Head(seq) = id THEN keep \cup rest ELSE keep

Gate(e) == IF ~e.auth THEN "notauthn" ELSE IF "Index" \notin e.sc THEN "notauthz" ELSE "pass"

(* The chain of stored nodes of one keyword: counter -> {} or {[id, next]}      *)
RECURSIVE Follow(_, _)
Follow(store, c) == IF c \notin DOMAIN store \/ store[c] = {} THEN <<>>
                    ELSE LET n == CHOOSE x \in store[c] : TRUE IN <<n.id>> \o Follow(store, n.next)
Chain(store) == Follow(store, 0)
=============================================================================
