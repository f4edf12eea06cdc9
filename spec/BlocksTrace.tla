------------------------------- MODULE BlocksTrace ------------------------------
(* Judges recorded uses of the building blocks (C36).                               *)
EXTENDS Blocks, TraceBase
BlInit(tr) == [acc |-> <<>>, items |-> <<>>, labels |-> {}]
R(ok, st, e, why) == [ok |-> ok, st |-> st, blame |-> {"C36"}, find |-> {}, why |-> [sig |-> "", what |-> why, op |-> e.op, note |-> e.note, got |-> e.res]]
At(f, h) == f[h]
With(f, h, v) == [x \in DOMAIN f \cup {h} |-> IF x = h THEN v ELSE f[x]]
Quiet(e) == e.res = "ok" /\ ~e.mut
(* the content of an item: for an access the set of its groups and its key, otherwise a string *)
Content(s, e) == IF e.kind = "access" THEN At(s.acc, e.h) ELSE [set |-> {}, key |-> e.content]
BlJudge(tr, e, i, s) ==
  CASE e.op = "new" -> R(Quiet(e) /\ e.set = <<>> /\ e.b, [s EXCEPT !.acc = With(@, e.h, [set |-> New, key |-> e.content])], e, "a new access")
    [] e.op = "add" -> R(Quiet(e), [s EXCEPT !.acc[e.h].set = Added(@, e.ids)], e, "adding groups")
    [] e.op = "remove" -> R(Quiet(e), [s EXCEPT !.acc[e.h].set = Removed(@, e.ids)], e, "removing groups")
    [] e.op = "contains" -> R(Quiet(e) /\ e.b = Contains(s.acc[e.h].set, e.ids), s, e, "ContainsGroups")
    [] e.op = "groups" -> R(Quiet(e) /\ Ran(e.set) = s.acc[e.h].set /\ e.content = s.acc[e.h].key, s, e, "GetGroups or the wrapped key")
    [] e.op = "seal" -> R(Quiet(e), [s EXCEPT !.items = With(@, e.g, Sealed(e.kind, e.bind, e.cry, Content(s, e), e.open, e.g))], e, "sealing")
    [] e.op = "unseal" ->
         LET c == s.items[e.ct]
             w == s.items[e.wk]
             opens == e.alt = "" /\ Opens(c, w, e.open, e.bind, e.cry)
         IN IF opens THEN R(Quiet(e) /\ (IF e.kind = "access" THEN Ran(e.set) = c.content.set /\ e.content = c.content.key ELSE e.content = c.content.key),
                            IF e.kind = "access" THEN [s EXCEPT !.acc = With(@, e.h, c.content)] ELSE s, e, "unsealing")
            ELSE R(e.res = "fail" /\ ~e.mut /\ e.set = <<>> /\ e.content = "", s, e, "unsealing something that was not sealed so")
    [] e.op = "label" ->
         R(Quiet(e) /\ \A l \in s.labels : (l.cry = e.cry /\ l.n = e.content) <=> l.label = e.open,
           [s EXCEPT !.labels = @ \cup {[cry |-> e.cry, n |-> e.content, label |-> e.open]}], e, "a label of another position, or another label of this one")
    [] e.op = "scopehas" -> R(Quiet(e) /\ e.b = ScopeHas(Ran(e.set), Ran(e.ids)), s, e, "Scope.Contains")
    [] e.op = "scopeunion" -> R(Quiet(e) /\ Ran(e.set) = UNION {Ran(e.args[k]) : k \in 1..Len(e.args)}, s, e, "ScopeUnion")
    [] e.op = "scopes" -> \* args: the bits of the nine scopes, set: those of ScopeAll, ids: of ScopeNone
         R(Quiet(e) /\ (\A k \in 1..Len(e.args) : Cardinality(Ran(e.args[k])) = 1)
             /\ Cardinality(UNION {Ran(e.args[k]) : k \in 1..Len(e.args)}) = Len(e.args)
             /\ Ran(e.set) = UNION {Ran(e.args[k]) : k \in 1..Len(e.args)} /\ e.ids = <<>>, s, e, "the scopes")
    [] e.op = "ids" -> R(Quiet(e) /\ Ran(e.set) = IDs(e.content, e.groups), s, e, "GetIDs")
    [] e.op = "idscope" -> R(Quiet(e) /\ Ran(e.set) = ScopeOf(e.content, e.ids, e.groups, e.open), s, e, "GetIDScope")
===============================================================================
