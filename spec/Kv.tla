---------------------------------- MODULE Kv ----------------------------------
(* A storage provider: a map from items to bytes.  One item at a time suffices:   *)
(* no call touches two.                                                           *)
(*                                                                                *)
(* A history of overlapping calls is followed by the set of all configurations    *)
(* that explain it: v is the item's value, calls the running calls with the       *)
(* result each has already got ("?" while it has not taken effect).               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Absent == "-"
Put(v, x) == IF v = Absent THEN [v |-> x, res |-> "ok", out |-> ""] ELSE [v |-> v, res |-> "exists", out |-> ""]
Upd(v, x) == IF v = Absent THEN [v |-> v, res |-> "notfound", out |-> ""] ELSE [v |-> x, res |-> "ok", out |-> ""]
Get(v) == IF v = Absent THEN [v |-> v, res |-> "notfound", out |-> ""] ELSE [v |-> v, res |-> "ok", out |-> v]
Del(v) == [v |-> Absent, res |-> "ok", out |-> ""]
Effect(v, op, x) == CASE op = "Put" -> Put(v, x) [] op = "Update" -> Upd(v, x) [] op = "Get" -> Get(v) [] op = "Delete" -> Del(v)

(* configurations: [v, run]; run: call number -> [op, x, res, out] *)
Start(v) == {[v |-> v, run |-> [n \in {} |-> 0]]}
Begin(cs, n, op, x) == {[c EXCEPT !.run = [m \in DOMAIN c.run \cup {n} |-> IF m = n THEN [op |-> op, x |-> x, res |-> "?", out |-> ""] ELSE c.run[m]]] : c \in cs}
StepOf(c, n) == LET r == c.run[n]
                    f == Effect(c.v, r.op, r.x)
                IN [v |-> f.v, run |-> [c.run EXCEPT ![n] = [@ EXCEPT !.res = f.res, !.out = f.out]]]
Steps(c) == {StepOf(c, n) : n \in {m \in DOMAIN c.run : c.run[m].res = "?"}}
RECURSIVE Closure(_, _)
Closure(done, new) == IF new = {} THEN done
                      ELSE LET d == done \cup new IN Closure(d, UNION {Steps(c) : c \in new} \ d)
End(cs, n, res, out) ==
  LET all == Closure({}, cs)
      fit == {c \in all : c.run[n].res = res /\ c.run[n].out = out}
  IN {[c EXCEPT !.run = [m \in DOMAIN c.run \ {n} |-> c.run[m]]] : c \in fit}
(* the process is killed: what was running took effect or did not *)
Crash(cs) == {[v |-> c.v, run |-> [n \in {} |-> 0]] : c \in Closure({}, cs)}
===============================================================================
