------------------------------ MODULE ObjectsMC ------------------------------
(* The design of the object calls at the granularity of storage calls:        *)
(* overlapping calls, failing storage calls (before or after taking effect),  *)
(* crashed calls, and an adversary who edits the store.  One action per       *)
(* storage call of each operation, in the order the code makes them.          *)
EXTENDS Objects

CONSTANTS Procs, Oids, Ids, MaxCalls, MaxFaults, MaxEdits, OpSet

VARIABLES store,    \* oid -> [o, a]
          proc,     \* proc -> what the call in progress knows and does next
          used,     \* number of fresh keys used
          calls, faults, edits,
          old,      \* every record ever stored (what the adversary can replay)
          sealed,   \* ghost: every <<oid, pay, ad>> sealed by a call
          lists,    \* ghost: every <<oid, set>> sealed by a call
          gone,     \* ghost: oids whose Delete returned ok
          torn,     \* ghost: oids with a failed Update in their past
          last      \* outcome of the call just finished
vars == <<store, proc, used, calls, faults, edits, old, sealed, lists, gone, torn, last>>

Idle == [pc |-> "idle"]
Everything == {OpScope[o] : o \in ObjOps}
CallerOf(i) == [auth |-> TRUE, id |-> i, sc |-> Everything, gr |-> {}]
NoLast == [op |-> "none"]

Init == /\ store = [x \in Oids |-> Absent]
        /\ proc = [p \in Procs |-> Idle]
        /\ used = 0 /\ calls = 0 /\ faults = 0 /\ edits = 0
        /\ old = [o |-> {}, a |-> {}]
        /\ sealed = {} /\ lists = {} /\ gone = {} /\ torn = {}
        /\ last = NoLast

Seen(x) == {ListOf(x, store[x])}

(* every running call on oid x observes the list now in force (for C29) *)
Watch(pr, x, ls) == [q \in Procs |-> IF pr[q].pc # "idle" /\ pr[q].oid = x
                                     THEN [pr[q] EXCEPT !.seen = @ \cup ls] ELSE pr[q]]

Begin(p, op, i, x, g) ==
  /\ proc[p].pc = "idle"
  /\ calls < MaxCalls
  /\ calls' = calls + 1
  /\ op = "Encrypt" => /\ store[x] = Absent /\ x \notin gone /\ x \notin torn
                       /\ \A q \in Procs : proc[q].pc # "idle" => proc[q].oid # x
  \* nobody knows an object's ID before its Encrypt has returned
  /\ \A q \in Procs : proc[q].pc # "idle" /\ proc[q].oid = x => proc[q].op # "Encrypt"
  /\ LET n == used + 1 IN
     /\ used' = n
     /\ proc' = [proc EXCEPT ![p] = [pc |-> IF op = "Encrypt" THEN "wobj" ELSE "getacc", op |-> op, id |-> i, oid |-> x,
                                     g |-> g, n |-> n, acc |-> {}, seen |-> Seen(x), bad |-> FALSE]]
     /\ IF op = "Encrypt" THEN /\ sealed' = sealed \cup {<<x, n, n>>} /\ lists' = lists \cup {<<x, g \cup {i}>>}
        ELSE IF op = "Update" THEN sealed' = sealed \cup {<<x, n, n>>} /\ lists' = lists
        ELSE UNCHANGED <<sealed, lists>>
  /\ last' = NoLast
  /\ UNCHANGED <<store, faults, edits, old, gone, torn>>

Finish(p, res, val) ==
  /\ proc' = [proc EXCEPT ![p] = Idle]
  /\ last' = [op |-> proc[p].op, oid |-> proc[p].oid, id |-> proc[p].id, res |-> res, val |-> val, seen |-> proc[p].seen]
  /\ gone' = IF proc[p].op = "Delete" /\ res = "ok" THEN gone \cup {proc[p].oid} ELSE gone
  /\ torn' = IF proc[p].op \in {"Update", "Encrypt"} /\ res # "ok" /\ proc[p].bad THEN torn \cup {proc[p].oid} ELSE torn

Goto(p, pc) == /\ proc' = [proc EXCEPT ![p].pc = pc] /\ last' = NoLast /\ UNCHANGED <<gone, torn>>

(* what the record written next looks like *)
NewObj(p) == SealObj(proc[p].oid, proc[p].n, proc[p].n, proc[p].n)
NewAcc(p) == LET pr == proc[p] IN
  CASE pr.op = "Encrypt" -> SealAcc(pr.oid, pr.g \cup {pr.id}, pr.n, pr.n)
    [] pr.op = "Update"  -> SealAcc(pr.oid, The(pr.acc).ct.gs, pr.n, pr.n)
    [] pr.op = "AddGroupsToAccess"      -> SealAcc(pr.oid, The(pr.acc).ct.gs \cup pr.g, The(pr.acc).ct.dek, pr.n)
    [] pr.op = "RemoveGroupsFromAccess" -> SealAcc(pr.oid, The(pr.acc).ct.gs \ pr.g, The(pr.acc).ct.dek, pr.n)

Ro == UNCHANGED <<store, used, calls, faults, edits, old, sealed, lists>>

GetAcc(p) ==
  /\ proc[p].pc = "getacc"
  /\ LET pr == proc[p]  s == store[pr.oid]  c == CallerOf(pr.id) IN
     IF s.a = {} THEN Finish(p, IF pr.op = "Delete" THEN "ok" ELSE "notfound", {})
     ELSE IF ~AccOpens(The(s.a), pr.oid) THEN Finish(p, "error", {})
     ELSE IF Eligible(c, OpScope[pr.op]) \cap The(s.a).ct.gs = {} THEN Finish(p, "notauthz", {})
     ELSE IF pr.op = "GetAccessGroups" THEN Finish(p, "ok", The(s.a).ct.gs)
     ELSE IF pr.op = "AuthorizeIdentity" THEN Finish(p, "ok", {})
     ELSE /\ proc' = [proc EXCEPT ![p].acc = s.a,
                 ![p].pc = CASE pr.op = "Decrypt" -> "getobj" [] pr.op = "Update" -> "wobj"
                             [] pr.op = "Delete" -> "delobj" [] OTHER -> "wacc"]
          /\ last' = NoLast /\ UNCHANGED <<gone, torn>>
  /\ Ro

GetObj(p) ==
  /\ proc[p].pc = "getobj"
  /\ LET pr == proc[p]  s == store[pr.oid] IN
     IF s.o = {} THEN Finish(p, "notfound", {})
     ELSE IF ObjOpens(The(s.o), pr.oid, The(pr.acc).ct.dek)
          THEN Finish(p, "ok", <<The(s.o).ct.pay, The(s.o).ad>>) ELSE Finish(p, "error", {})
  /\ Ro

(* a write of the record `slot`; must exist for updates.  f: "" | "before" | "after" *)
Write(p, f) ==
  /\ proc[p].pc \in {"wobj", "wacc", "delobj", "delacc"}
  /\ f # "" => faults < MaxFaults
  /\ faults' = IF f # "" THEN faults + 1 ELSE faults
  /\ LET pr == proc[p]  x == pr.oid  s == store[x]
         isObj == pr.pc \in {"wobj", "delobj"}
         missing == pr.op # "Encrypt" /\ pr.op # "Delete" /\ (IF isObj THEN s.o = {} ELSE s.a = {})
         ns == CASE pr.pc = "wobj" -> [s EXCEPT !.o = {NewObj(p)}]
                 [] pr.pc = "wacc" -> [s EXCEPT !.a = {NewAcc(p)}]
                 [] pr.pc = "delobj" -> [s EXCEPT !.o = {}]
                 [] pr.pc = "delacc" -> [s EXCEPT !.a = {}]
         does == f # "before" /\ ~missing
     IN /\ store' = IF does THEN [store EXCEPT ![x] = ns] ELSE store
        /\ old' = IF ~does THEN old
                   ELSE IF pr.pc = "wobj" THEN [old EXCEPT !.o = @ \cup {NewObj(p)}]
                   ELSE IF pr.pc = "wacc" THEN [old EXCEPT !.a = @ \cup {NewAcc(p)}] ELSE old
        /\ lists' = IF does /\ pr.pc = "wacc" THEN lists \cup {<<x, NewAcc(p).ct.gs>>} ELSE lists
        /\ LET nl == ListOf(x, store'[x])
               w == Watch(proc, x, {nl})
           IN IF f # "" THEN
                 /\ proc' = [w EXCEPT ![p] = Idle]
                 /\ last' = [op |-> pr.op, oid |-> x, id |-> pr.id, res |-> "error", val |-> {}, seen |-> pr.seen]
                 /\ torn' = IF pr.op \in {"Update", "Encrypt"} THEN torn \cup {x} ELSE torn
                 /\ gone' = gone
              ELSE IF missing THEN
                 /\ proc' = [w EXCEPT ![p] = Idle]
                 /\ last' = [op |-> pr.op, oid |-> x, id |-> pr.id, res |-> "notfound", val |-> {}, seen |-> pr.seen]
                 /\ gone' = gone /\ torn' = torn
              ELSE IF pr.pc \in {"wobj", "delobj"} THEN
                 /\ proc' = [w EXCEPT ![p].pc = IF pr.pc = "wobj" THEN "wacc" ELSE "delacc"]
                 /\ last' = NoLast /\ UNCHANGED <<gone, torn>>
              ELSE
                 /\ proc' = [w EXCEPT ![p] = Idle]
                 /\ last' = [op |-> pr.op, oid |-> x, id |-> pr.id, res |-> "ok", val |-> {}, seen |-> pr.seen]
                 /\ gone' = IF pr.op = "Delete" THEN gone \cup {x} ELSE gone
                 /\ torn' = torn
  /\ UNCHANGED <<used, calls, edits, sealed>>

(* the adversary puts any record (or part of one) ever stored anywhere *)
Edit(x) ==
  /\ edits < MaxEdits /\ edits' = edits + 1
  /\ \/ \E r \in old.o : store' = [store EXCEPT ![x].o = {r}]
     \/ \E r \in old.a : store' = [store EXCEPT ![x].a = {r}]
     \/ store[x].o # {} /\ \E r \in old.o : \/ store' = [store EXCEPT ![x].o = {[The(@) EXCEPT !.ct = r.ct]}]
                                            \/ store' = [store EXCEPT ![x].o = {[The(@) EXCEPT !.ad = r.ad]}]
     \/ store[x].a # {} /\ \E r \in old.a : \/ store' = [store EXCEPT ![x].a = {[The(@) EXCEPT !.ct = r.ct]}]
                                            \/ store' = [store EXCEPT ![x].a = {[The(@) EXCEPT !.wk = r.wk]}]
     \/ store' = [store EXCEPT ![x].o = {}]
     \/ store' = [store EXCEPT ![x].a = {}]
  /\ last' = NoLast
  /\ proc' = [p \in Procs |-> IF proc[p].pc = "idle" THEN Idle ELSE [proc[p] EXCEPT !.seen = @ \cup {ListOf(proc[p].oid, store'[proc[p].oid])}]]
  /\ UNCHANGED <<used, calls, faults, old, sealed, lists, gone, torn>>

Next ==
  \/ \E p \in Procs :
       \/ \E op \in OpSet, i \in Ids, x \in Oids :
            \E g \in (IF op \in {"Encrypt", "AddGroupsToAccess", "RemoveGroupsFromAccess"} THEN {{}} \cup {{y} : y \in Ids} ELSE {{}}) :
              Begin(p, op, i, x, g)
       \/ GetAcc(p) \/ GetObj(p)
       \/ \E f \in {"", "before", "after"} : Write(p, f)
  \/ \E x \in Oids : Edit(x)

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* C03, C07, C29: a payload is returned only with its associated data, and    *)
(* only if a call sealed it for exactly this object                           *)
PayloadGenuine == last.op = "Decrypt" /\ last.res = "ok" => <<last.oid, last.val[1], last.val[2]>> \in sealed
(* C04, C07: a list is returned only if a call sealed it for this object *)
ListGenuine == last.op = "GetAccessGroups" /\ last.res = "ok" => <<last.oid, last.val>> \in lists
(* C02, C29: whoever gets through was on a list in force during the call *)
Authorized == last.op \notin {"none", "Encrypt"} /\ last.res = "ok"
              => (last.op = "Delete" /\ {} \in last.seen) \/ \E s \in last.seen : last.id \in s
(* C05: never data without its list, except the orphan of a failed Encrypt or *)
(* an Encrypt still running                                                   *)
NoStranded == MaxEdits = 0 =>
  \A x \in Oids : store[x].o # {} /\ store[x].a = {} =>
     x \in torn \/ \E p \in Procs : proc[p].pc # "idle" /\ proc[p].op = "Encrypt" /\ proc[p].oid = x
(* C05, C29: deleted stays deleted *)
NoRevival == MaxEdits = 0 => \A x \in gone : store[x].a = {} /\ (x \notin torn => store[x].o = {})
(* C06: with one caller, whenever nothing runs every object is whole, absent, *)
(* or half-deleted -- unless an Update of it failed (known finding)           *)
Whole == MaxEdits = 0 /\ Cardinality(Procs) = 1 /\ (\A p \in Procs : proc[p].pc = "idle") =>
  \A x \in Oids \ torn :
     \/ store[x].a = {} /\ store[x].o = {}
     \/ /\ store[x].a # {} /\ AccOpens(The(store[x].a), x)
        /\ store[x].o # {} => ObjOpens(The(store[x].o), x, DekOf(store[x]))
(* keys are never used twice (C09) *)
FreshKeys == \A r1, r2 \in old.a : r1.wk = r2.wk => r1 = r2
=============================================================================
