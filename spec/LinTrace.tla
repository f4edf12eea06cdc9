-------------------------------- MODULE LinTrace -------------------------------
(* Judges recorded histories of overlapping calls (C29, C30).  Events: begin of a  *)
(* call, end of a call with its result, and the records present when nothing runs. *)
EXTENDS Lin, TraceBase

AllScopes == {OpScope[o] : o \in ObjOps}
CallOf(e) ==
  CASE e.kind = "obj" -> [kind |-> "obj", op |-> e.cop, oid |-> e.item, pay |-> e.pay, ad |-> e.ad, gs |-> Range(e.gs),
                          who |-> [auth |-> TRUE, id |-> e.by, sc |-> AllScopes, gr |-> {[g |-> x, sc |-> AllScopes] : x \in Range(e.grs)}]]
    [] e.kind = "idx" -> [kind |-> "idx", op |-> e.cop, id |-> e.id]
    [] e.kind = "fun" -> [kind |-> "fun", op |-> e.cop, pay |-> e.pay, i |-> e.i]
    [] e.kind = "idp" -> [kind |-> "idp", op |-> e.cop, by |-> e.by, uid |-> e.uid, pw |-> e.pw, npw |-> e.npw, gs |-> Range(e.gs)]
ValOf(e) == [pay |-> e.pay, ad |-> e.ad, gs |-> Range(e.gs), seq |-> e.seq]

NoS == {"idx", "fun"}     \* kinds without a step by step description
NoFn == [x \in {} |-> {}]
LinInit(tr) == [l |-> NoFn, s |-> NoFn, lost |-> {}, run |-> NoFn, gone |-> {},
                sealed |-> {}, added |-> {}, known |-> NoFn, pairs |-> {}]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
At(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d

(* what a call changes that later calls must obey: an access list, a user's groups *)
Subject(e, c) == IF c.kind = "obj" THEN e.item ELSE IF c.kind = "idp" THEN (IF c.op \in {"GetIdentity", "NewGroup"} THEN c.by ELSE c.uid) ELSE ""
Unknown == [ok |-> FALSE, gs |-> {}]
Known(st, x) == At(st.known, x, Unknown)
NowKnown(st, x, r, res) ==      \* after call r on subject x ended
  LET c == r.c  k == Known(st, x) IN
  IF ~IsWriter(c) THEN k
  ELSE IF ~r.quiet THEN Unknown
  ELSE IF res # "ok" THEN k
  ELSE CASE c.op = "Encrypt" -> [ok |-> TRUE, gs |-> c.gs \cup {c.who.id}]
         [] c.op = "NewUser" -> [ok |-> TRUE, gs |-> {}]
         [] c.op \in {"AddGroupsToAccess", "AddUserToGroups", "NewGroup"} -> [k EXCEPT !.gs = @ \cup c.gs]
         [] c.op \in {"RemoveGroupsFromAccess", "RemoveUserFromGroups"} -> [k EXCEPT !.gs = @ \ c.gs]
         [] OTHER -> k
(* a call no change overlapped obeys what is known *)
Obeys(st, e, r, x) ==
  LET c == r.c  k == Known(st, x)  kb == IF c.kind = "idp" /\ c.op \in ByToken THEN Known(st, c.by) ELSE Unknown IN
  r.quiet =>
  CASE c.kind = "obj" /\ c.op # "Encrypt" /\ k.ok ->
         /\ e.res = "ok" /\ ~(c.op = "Delete" /\ c.oid \in st.gone) => Eligible(c.who, OpScope[c.op]) \cap k.gs # {}
         /\ e.res = "notauthz" => Eligible(c.who, OpScope[c.op]) \cap k.gs = {}
         /\ c.op = "GetAccessGroups" /\ e.res = "ok" => Range(e.gs) = k.gs
    [] c.kind = "idp" /\ kb.ok ->
         /\ c.op = "GetIdentity" /\ e.res = "ok" => Range(e.gs) = kb.gs
         /\ c.op \in {"AddUserToGroups", "RemoveUserFromGroups"} /\ e.res = "ok" => c.gs \subseteq kb.gs
         /\ e.res = "notauthz" => ~(c.gs \subseteq kb.gs)
    [] OTHER -> TRUE

Involved(e, c) == IF c.kind = "idp" THEN {c.by, c.uid} \ {""} ELSE {e.item}
Begins(st, e) ==
  LET c == CallOf(e)  k == e.item
      rivals == {m \in DOMAIN st.run : st.run[m].item = k}
      late == CASE c.kind = "obj" -> k \in st.gone /\ c.op # "Delete"
                [] c.kind = "idp" -> c.by \in st.gone \/ (c.uid \in st.gone /\ c.op # "DeleteUser")
                [] OTHER -> FALSE
      r == [c |-> c, item |-> k, late |-> late, quiet |-> ~\E m \in rivals : IsWriter(st.run[m].c)]
      run1 == [m \in DOMAIN st.run |-> IF m \in rivals /\ IsWriter(c) THEN [st.run[m] EXCEPT !.quiet = FALSE] ELSE st.run[m]]
      lost == k \in st.lost
  IN [st EXCEPT !.run = Put(run1, e.n, r),
                !.l = IF lost THEN @ ELSE Put(@, k, BeginL(At(@, k, L0(c.kind)), e.n, c)),
                !.s = IF c.kind \in NoS THEN @ ELSE Put(@, k, BeginS(At(@, k, SS0(c.kind)), e.n, c)),
                !.sealed = IF c.op \in {"Encrypt", "Update"} THEN @ \cup {<<k, c.pay, c.ad>>} ELSE @,
                !.added = IF c.op = "Add" THEN @ \cup {<<k, c.id>>} ELSE @,
                !.pairs = @ \cup {<<k, {st.run[m].c.op, c.op}>> : m \in {q \in rivals : IsWriter(c) \/ IsWriter(st.run[q].c)}}]

(* how an index history went wrong *)
Symptom(e) ==
  IF e.res = "ok" THEN "wrong entries" ELSE "a call that nothing overlapped fails"
BadPair(st, k) ==
  LET has(P) == <<k, P>> \in st.pairs IN
  IF has({"DeleteEntry"}) THEN "DeleteEntry and DeleteEntry"
  ELSE IF has({"DeleteEntry", "Add"}) THEN "DeleteEntry and Add"
  ELSE IF has({"DeleteEntry", "Search"}) THEN "DeleteEntry and Search" ELSE ""

(* in histories of kind "indep" no two calls on one item overlap: C28 *)
Ends(tr, st, e) ==
  LET indep == tr.kind = "indep"
      r == st.run[e.n]  c == r.c  k == r.item  x == Subject(e, c)
      val == ValOf(e)
      lost == k \in st.lost
      alone == {m \in DOMAIN st.run : st.run[m].item = k} = {e.n}
      \* C29
      revived == r.late /\ e.res = "ok"
      mixed == c.op = "Decrypt" /\ e.res = "ok" /\ <<k, e.pay, e.ad>> \notin st.sealed
      foreign == c.op = "Search" /\ \E i \in DOMAIN e.seq : <<k, e.seq[i]>> \notin st.added
      disobeys == ~Obeys(st, e, r, x)
      panics == e.res = "panic"
      c29 == revived \/ mixed \/ foreign \/ disobeys \/ panics
      \* C30
      l2 == IF lost THEN {} ELSE EndL(At(st.l, k, {}), e.n, e.res, val)
      s2 == IF c.kind \in NoS THEN {} ELSE EndS(At(st.s, k, {}), e.n, e.res, val)
      s3 == IF s2 = {} /\ c.kind \notin NoS /\ l2 # {} /\ alone THEN {FromL(g) : g \in l2} ELSE s2
      fewest == CHOOSE g \in s2 : \A h \in s2 : Cardinality(g.tags) <= Cardinality(h.tags)
      sigs == IF lost \/ l2 # {} THEN {}
              ELSE IF indep THEN {} ELSE IF c.kind = "idx" THEN (IF BadPair(st, k) = "" THEN {} ELSE
                   {BadPair(st, k) \o ": " \o Symptom(e)})
              ELSE IF s2 = {} THEN {} ELSE fewest.tags
      c30 == IF lost THEN c.kind \notin NoS /\ s2 = {}
             ELSE l2 = {} /\ sigs = {}
      resync == c.kind \in NoS /\ lost /\ alone /\ c.op = "Search" /\ e.res = "ok"
  IN [ok |-> ~c29 /\ ~c30,
      st |-> [st EXCEPT !.run = [m \in DOMAIN @ \ {e.n} |-> @[m]],
                        !.l = IF resync THEN Put(@, k, {[s |-> e.seq, run |-> NoRun]}) ELSE Put(@, k, l2),
                        !.s = Put(@, k, s3),
                        !.lost = IF resync THEN @ \ {k} ELSE IF l2 = {} THEN @ \cup {k} ELSE @,
                        !.gone = IF e.res = "ok" /\ c.op = "Delete" THEN @ \cup {k} ELSE IF e.res = "ok" /\ c.op = "DeleteUser" THEN @ \cup {c.uid} ELSE @,
                        !.known = IF c.kind \in NoS THEN @ ELSE Put(@, x, NowKnown(st, x, r, e.res))],
      blame |-> IF indep THEN {"C28"} ELSE (IF c29 THEN {"C29"} ELSE {}) \cup (IF c30 \/ (c29 /\ ~lost /\ l2 = {} /\ sigs = {}) THEN {"C30"} ELSE {}),
      why |-> [sig |-> "", op |-> c.op, item |-> k, got |-> e.res, revived |-> revived, mixed |-> mixed, foreign |-> foreign, disobeys |-> disobeys,
               overlaps |-> {p[2] : p \in {q \in st.pairs : q[1] = k}},
               what |-> IF c30 THEN "no order of the calls explains this result" ELSE ""],
      find |-> {[prop |-> "C30", sig |-> z] : z \in sigs}]

(* nothing runs: no trace of deleted objects is left *)
StateJudge(tr, st, e) ==
  LET bad == e.item \in st.gone /\ (e.haso \/ e.hasa) IN
  [ok |-> ~bad, st |-> st, blame |-> {IF tr.kind = "indep" THEN "C28" ELSE "C29"}, find |-> {},
   why |-> [sig |-> "", op |-> "state", what |-> "records of a deleted object are present", item |-> e.item]]

LinJudge(tr, e, i, s) ==
  CASE e.op = "begin" -> [ok |-> TRUE, st |-> Begins(s, e), blame |-> {}, why |-> "", find |-> {}]
    [] e.op = "end" -> Ends(tr, s, e)
    [] e.op = "state" -> StateJudge(tr, s, e)
===============================================================================
