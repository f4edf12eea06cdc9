-------------------------------- MODULE KmacTrace -------------------------------
(* Judges recorded MACs, derived keys and tags (C26).  Outputs and inputs are      *)
(* names; exp is the digest of the string this specification prescribes.           *)
EXTENDS Kmac, TraceBase
KmInit(tr) == [x |-> "", seen |-> [y \in {} |-> ""]]
Sig == "customization strings that exactly fill a block"
R(ok, st, e, why, sig) == [ok |-> ok, st |-> st, blame |-> {"C26"}, find |-> {}, why |-> [sig |-> sig, what |-> why, op |-> e.op, slen |-> e.slen, got |-> e.out]]
KmJudge(tr, e, i, s) ==
  CASE e.op = "mac" ->
         LET same == e.inp \in DOMAIN s.seen
             fresh == \A y \in DOMAIN s.seen : s.seen[y] # e.out
             st == [s EXCEPT !.seen = IF same THEN @ ELSE [y \in DOMAIN @ \cup {e.inp} |-> IF y = e.inp THEN e.out ELSE @[y]]]
             short == e.exp # "" /\ e.out # e.exp
             known == short /\ Fills(e.slen, e.w) /\ e.out = e.alt
         IN IF e.mut THEN R(FALSE, s, e, "an argument was changed", "")
            ELSE IF same /\ s.seen[e.inp] # e.out THEN R(FALSE, s, e, "the same inputs gave another output", "")
            ELSE IF ~same /\ ~fresh THEN R(FALSE, s, e, "different inputs gave the same output", "")
            ELSE IF short /\ ~known THEN R(FALSE, s, e, "not KMAC as defined", "")
            ELSE [R(TRUE, st, e, "", "") EXCEPT !.find = IF known THEN {[prop |-> "C26", sig |-> Sig]} ELSE {}]
    [] e.op = "frame" -> \* the frame the driver builds its expectations with
         [ok |-> e.f = Frame(e.f.klen, e.f.slen, e.f.tag, e.f.w), st |-> s, blame |-> {"C26"}, find |-> {}, why |-> [sig |-> "", what |-> "frame"]]
    [] e.op = "Write" -> R(TRUE, [s EXCEPT !.x = Write(@, e.c)], e, "", "")
    [] e.op = "Reset" -> R(TRUE, [s EXCEPT !.x = ""], e, "", "")
    [] e.op = "Size" -> R(e.n = e.want /\ e.bs = e.w, s, e, "wrong size", "")
    [] e.op = "Sum" -> \* of what has been written since the last reset, and changing nothing
         R(e.msg = s.x /\ ~e.mut /\ e.out = e.exp, s, e, IF e.mut THEN "the prefix given to Sum was changed" ELSE "Sum: not the MAC of what was written", "")
===============================================================================
