---------------------------- MODULE ObjectsTrace ----------------------------
(* Judges recorded histories of object calls (C01-C07).                       *)
(* The state maps every object ID to the set of stored-record states that the *)
(* history so far allows (more than one only after ambiguous failures or raw  *)
(* damage), so no search is needed.                                           *)
EXTENDS Objects, TraceBase

Caller(e) == [auth |-> e.auth, id |-> e.id, sc |-> Range(e.sc),
              gr |-> {[g |-> x.g, sc |-> Range(x.sc)] : x \in Range(e.gr)}]

ObjInit(tr) == [bel |-> [x \in {} |-> {}], saved |-> [x \in {} |-> {}],
                faulted |-> FALSE, tampered |-> FALSE, del |-> {}]

BelOf(st, oid) == IF oid \in DOMAIN st.bel THEN st.bel[oid] ELSE {[st |-> Absent, tag |-> ""]}
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

(* values returned *)
ValuesOk(e, s) ==
  CASE e.op = "Decrypt" -> e.opay = The(s.o).ct.pay /\ e.oad = The(s.o).ad
    [] e.op = "GetAccessGroups" -> Range(e.ogs) = ListOf(e.oid, s) /\ Len(e.ogs) = Cardinality(ListOf(e.oid, s))
    [] OTHER -> TRUE

Present(e, s) == e.oid = "" \/ ((s.o # {}) = e.haso /\ (s.a # {}) = e.hasa)

Tag(e, name) == name \o " (write " \o ToString(e.fm) \o ", " \o e.ft \o " record failed)"

(* belief states that explain event e starting from belief state b; n is fresh *)
NextOf(e, c, b, n) ==
  LET v == Verdict(e.op, c, e.oid, b.st)
      same == b
      after == [st |-> Effect(e.op, c, e.oid, e.pay, e.ad, Range(e.gs), b.st, n),
                tag |-> IF e.op \in {"Encrypt", "Update", "Delete"} THEN "" ELSE b.tag]
      all ==
        IF e.flt = 0 THEN
           (IF e.res # v THEN {}
            ELSE IF v # "ok" THEN (IF e.chg = 0 THEN {same} ELSE {})
            ELSE IF ~ValuesOk(e, b.st) THEN {}
            ELSE IF ~Writes(e.op) /\ e.chg # 0 THEN {} ELSE {after})
        ELSE
           (IF Gate(e.op, c) # "pass" THEN (IF e.res = v /\ e.chg = 0 THEN {same} ELSE {})
            ELSE IF e.res = "ok" THEN (IF v = "ok" /\ ValuesOk(e, b.st) THEN {after} ELSE {})
            ELSE IF e.res # "error" /\ e.res # v THEN {}
            ELSE IF ~Writes(e.op) \/ v # "ok" THEN (IF e.chg = 0 THEN {same} ELSE {})
            ELSE IF e.chg = 0 THEN {same} \cup (IF after.st = b.st THEN {after} ELSE {})
            ELSE (IF e.op = "Update" /\ e.chg = 1 THEN {} ELSE {after}) \cup
                 {[st |-> p.st, tag |-> IF p.tag = "" THEN b.tag ELSE Tag(e, p.tag)] : p \in Partial(e.op, b.st, after.st)})
  IN {x \in all : Present(e, x.st)}

(* which property an event that is not allowed breaks *)
Blame(st, e, c, vs) ==
  LET g == Gate(e.op, c)
      refused == e.res # "ok"
      seq == IF st.tampered THEN {"C07"}
        ELSE IF e.res # "panic" /\ g # "pass" THEN {"C01"}
        ELSE IF e.res = "notauthn" \/ (e.op = "Encrypt" /\ e.res = "notauthz") THEN {"C01"}
        ELSE IF st.faulted \/ e.flt > 0 THEN {"C06"} \cup (IF e.op = "Delete" \/ e.oid \in st.del THEN {"C05"} ELSE {})
        ELSE IF e.op = "AuthorizeIdentity" /\ "notfound" \notin vs THEN {"C02"}
        ELSE IF (e.res = "notauthz") # ("notauthz" \in vs) /\ e.res # "panic" THEN {"C02"}
        ELSE IF e.res = "notauthz" THEN {"C02"}
        ELSE IF e.mutg THEN {"C04"}
        ELSE IF e.mut THEN {"C03"}
        ELSE IF e.op = "Delete" \/ e.oid \in st.del \/ "notfound" \in vs THEN {"C05"}
        ELSE IF e.op \in {"GetAccessGroups", "AddGroupsToAccess", "RemoveGroupsFromAccess"} THEN {"C04"}
        ELSE IF e.op \in {"Encrypt", "Update"} /\ e.res = "ok" /\ e.haso /\ ~e.hasa THEN {"C03", "C04"}
        ELSE {"C03"}
      \* the list that came back is none of those it can be
      wrong == e.op = "GetAccessGroups" /\ e.res = "ok" /\ ~st.tampered /\ g = "pass"
               /\ \A b \in BelOf(st, e.oid) : Range(e.ogs) # ListOf(e.oid, b.st)
  IN seq \cup IF wrong /\ ~st.faulted THEN {"C04"} ELSE {}

CallJudge(st, e, i) ==
  LET c == Caller(e)
      bel == BelOf(st, e.oid)
      vs == {Verdict(e.op, c, e.oid, b.st) : b \in bel}
      fresh == e.op = "Encrypt" /\ e.oid # "" => e.oid \notin DOMAIN st.bel
      known == e.op = "Encrypt" /\ e.res = "ok" => e.oid # ""
      nxt == UNION {NextOf(e, c, b, i) : b \in bel}
      clean == ~e.leak /\ ~e.mut /\ ~e.mutg /\ e.oth = 0 /\ fresh /\ known
               /\ (e.oid = "" => e.chg = 0)
      ok == clean /\ nxt # {}
      torn == nxt # {} /\ \A b \in nxt : b.tag # ""
      nxt2 == IF torn THEN {[b EXCEPT !.tag = ""] : b \in nxt} ELSE nxt
  IN [ok |-> ok,
      st |-> IF ~ok THEN st ELSE
             [st EXCEPT !.bel = IF e.oid = "" THEN @ ELSE Put(@, e.oid, nxt2),
                        !.faulted = @ \/ e.flt > 0,
                        !.del = IF e.op = "Delete" /\ e.res # "notauthn" /\ e.res # "notauthz" THEN @ \cup {e.oid} ELSE @],
      blame |-> Blame(st, e, c, vs),
      why |-> [op |-> e.op, got |-> e.res, allowed |-> vs, clean |-> clean],
      find |-> IF ok /\ torn THEN {[prop |-> "C06", sig |-> (CHOOSE b \in nxt : TRUE).tag]} ELSE {}]

----------------------------------------------------------------------------
(* Changes made to the store outside the library.  ver names a saved state of *)
(* some object ("" for junk); field says what of it goes where.               *)
HasO(s) == s.o # {}
HasA(s) == s.a # {}

Edited(e, s, src) ==
  CASE e.field = "obj"     -> [s EXCEPT !.o = src.o]
    [] e.field = "acc"     -> [s EXCEPT !.a = src.a]
    [] e.field = "both"    -> src
    [] e.field = "obj.ct" /\ HasO(s) /\ HasO(src) -> [s EXCEPT !.o = {[The(s.o) EXCEPT !.ct = The(src.o).ct]}]
    [] e.field = "obj.ad" /\ HasO(s) /\ HasO(src) -> [s EXCEPT !.o = {[The(s.o) EXCEPT !.ad = The(src.o).ad]}]
    [] e.field = "acc.ct" /\ HasA(s) /\ HasA(src) -> [s EXCEPT !.a = {[The(s.a) EXCEPT !.ct = The(src.a).ct]}]
    [] e.field = "acc.wk" /\ HasA(s) /\ HasA(src) -> [s EXCEPT !.a = {[The(s.a) EXCEPT !.wk = The(src.a).wk]}]
    [] e.field = "junk obj.ct" /\ HasO(s) -> [s EXCEPT !.o = {[The(s.o) EXCEPT !.ct = JunkObjCt]}]
    [] e.field = "junk obj.ad" /\ HasO(s) -> [s EXCEPT !.o = {[The(s.o) EXCEPT !.ad = "junk"]}]
    [] e.field = "junk acc.ct" /\ HasA(s) -> [s EXCEPT !.a = {[The(s.a) EXCEPT !.ct = JunkAccCt]}]
    [] e.field = "junk acc.wk" /\ HasA(s) -> [s EXCEPT !.a = {[The(s.a) EXCEPT !.wk = JunkKey]}]
    [] e.field = "no obj"  -> [s EXCEPT !.o = {}]
    [] e.field = "no acc"  -> [s EXCEPT !.a = {}]
    [] OTHER -> s
(* damage to the raw bytes of a record may or may not change a field of it *)
RawDamage(e, s) ==
  CASE e.field = "raw obj" /\ HasO(s) -> {s, [s EXCEPT !.o = {[ad |-> "junk", ct |-> JunkObjCt]}]}
    [] e.field = "raw acc" /\ HasA(s) -> {s, [s EXCEPT !.a = {[wk |-> JunkKey, ct |-> JunkAccCt]}]}
    [] OTHER -> {s}

TamperJudge(st, e) ==
  LET bel == BelOf(st, e.oid)
      src == IF e.ver \in DOMAIN st.saved THEN st.saved[e.ver] ELSE {[st |-> Absent, tag |-> ""]}
      nb == IF e.field \in {"raw obj", "raw acc"}
            THEN UNION {{[st |-> x, tag |-> b.tag] : x \in RawDamage(e, b.st)} : b \in bel}
            ELSE UNION {{[st |-> Edited(e, b.st, x.st), tag |-> b.tag] : x \in src} : b \in bel}
  IN [ok |-> TRUE, st |-> [st EXCEPT !.bel = Put(@, e.oid, nb), !.tampered = TRUE],
      blame |-> {}, why |-> "", find |-> {}]

SaveJudge(st, e) ==
  [ok |-> TRUE, st |-> [st EXCEPT !.saved = Put(@, e.ver, BelOf(st, e.oid))], blame |-> {}, why |-> "", find |-> {}]

ObjJudge(tr, e, i, s) ==
  CASE e.op = "Save" -> SaveJudge(s, e)
    [] e.op = "Tamper" -> TamperJudge(s, e)
    [] OTHER -> CallJudge(s, e, i)
=============================================================================
