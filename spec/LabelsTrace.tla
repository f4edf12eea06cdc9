------------------------------ MODULE LabelsTrace ------------------------------
(* Judges where and how the index stores entries (C16).                          *)
(* of: label name -> the (key, keyword, position) it was seen for; at: the reverse *)
(* seen: contents (records, ciphertexts, wrapped keys) stored so far              *)
EXTENDS Labels, TraceBase
LabInit(tr) == [of |-> [x \in {} |-> ""], at |-> [x \in {} |-> ""], seen |-> {}]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

R(ok, s, why) == [ok |-> ok, st |-> s, blame |-> {"C16"}, why |-> [sig |-> "", what |-> why], find |-> {}]

(* Add of the entry number pos (0, 1, ..) of a keyword into a fresh store *)
Add(s, e) ==
  LET place == <<e.key, e.kw, e.pos>>
      one == e.res = "ok" /\ Len(e.fresh) = 1
      l == e.fresh[1]
      known == place \in DOMAIN s.at
      ok1 == one /\ (known => s.at[place] = l)
      ok2 == one /\ (l \in DOMAIN s.of => s.of[l] = place)
      ok3 == Rng(e.vals) \cap s.seen = {} /\ Cardinality(Rng(e.vals)) = Len(e.vals)
  IN R(one /\ ok1 /\ ok2 /\ ok3 /\ e.shared = 0,
       [s EXCEPT !.at = Put(@, place, l), !.of = Put(@, l, place), !.seen = @ \cup Rng(e.vals)],
       IF ~one THEN "an entry is not stored as one record of its own" ELSE IF ~ok1 THEN "the same place has two labels"
       ELSE IF ~ok2 THEN "two places have the same label" ELSE IF e.shared > 0 THEN "labels of different places have pieces in common" ELSE "a stored value repeats")

(* any other history: contents never repeat, and there are as many records as entries *)
Churn(s, e) ==
  LET ok1 == Rng(e.vals) \cap s.seen = {} /\ Cardinality(Rng(e.vals)) = Len(e.vals)
      ok2 == e.res = "ok" /\ e.live = e.entries
  IN R(ok1 /\ ok2 /\ e.shared = 0, [s EXCEPT !.seen = @ \cup Rng(e.vals)], IF ~ok1 THEN "a stored value repeats" ELSE IF e.shared > 0 THEN "labels of different places have pieces in common" ELSE "records and entries do not correspond")

(* an index over another key reads nothing of what is stored *)
Foreign(s, e) == R(e.res = "ok" /\ e.live = 0, s, "an index with another key sees entries")

LabJudge(tr, e, i, s) == CASE e.op = "Add" -> Add(s, e) [] e.op = "Churn" -> Churn(s, e) [] e.op = "Foreign" -> Foreign(s, e)
=============================================================================
