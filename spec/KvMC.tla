---------------------------------- MODULE KvMC ----------------------------------
(* Two designs of a provider, step by step, followed by the configurations of Kv:  *)
(* Mem: writers check and store, in one step (Atomic) or, as before the repair, in  *)
(* two; Bolt: a transaction writes its pages and then the meta page that makes it   *)
(* count, and is answered after that (AckEarly = FALSE); the process may be killed  *)
(* at any point and restarted.                                                     *)
EXTENDS Kv
CONSTANTS Procs, Vals, MaxCalls, MaxKills, Kind, Atomic, AckEarly,
          Syncs   \* which of the two syncs of a transaction happen: "pages", "meta"
VARIABLES v,      \* Mem: the value; Bolt: the value the current meta page leads to
          dirty,  \* Bolt: pages written by the running transaction
          disk,   \* Bolt: the value the last synced meta page leads to
          safe,   \* Bolt: values whose pages are synced
          pc, loc, cs, ws, calls, kills
vars == <<v, dirty, disk, safe, pc, loc, cs, ws, calls, kills>>
None == [op |-> "", x |-> "", res |-> "", out |-> "", new |-> ""]
Init == /\ v = Absent /\ dirty = {} /\ disk = Absent /\ safe = {Absent} /\ pc = [p \in Procs |-> "idle"] /\ loc = [p \in Procs |-> None]
        /\ cs = Start(Absent) /\ ws = Start(Absent) /\ calls = 0 /\ kills = 0
Ops == {"Put", "Update", "Get", "Delete"}
Call(p) == /\ pc[p] = "idle" /\ calls < MaxCalls /\ calls' = calls + 1
           /\ \E op \in Ops : \E x \in IF op \in {"Put", "Update"} THEN Vals ELSE {""} :
                /\ loc' = [loc EXCEPT ![p] = [None EXCEPT !.op = op, !.x = x]]
                /\ cs' = Begin(cs, p, op, x)
                /\ ws' = IF op = "Get" THEN ws ELSE Begin(ws, p, op, x)
           /\ pc' = [pc EXCEPT ![p] = "go"] /\ UNCHANGED <<v, dirty, disk, safe, kills>>
(* Mem *)
MemStep(p) == /\ Kind = "mem" /\ pc[p] = "go"
              /\ LET f == Effect(v, loc[p].op, loc[p].x) IN
                 /\ loc' = [loc EXCEPT ![p] = [@ EXCEPT !.res = f.res, !.out = f.out, !.new = f.v]]
                 /\ IF Atomic \/ loc[p].op \in {"Get", "Delete"} \/ f.res # "ok"
                    THEN v' = f.v /\ pc' = [pc EXCEPT ![p] = "done"]
                    ELSE v' = v /\ pc' = [pc EXCEPT ![p] = "store"]
              /\ UNCHANGED <<dirty, disk, safe, cs, ws, calls, kills>>
MemStore(p) == pc[p] = "store" /\ v' = loc[p].new /\ pc' = [pc EXCEPT ![p] = "done"] /\ UNCHANGED <<dirty, disk, safe, loc, cs, ws, calls, kills>>
(* Bolt: one writer at a time.  A transaction writes its pages, syncs, writes the meta page that  *)
(* makes it count, syncs again, and returns.                                                        *)
Writing == \E p \in Procs : pc[p] \in {"pages", "sync1", "meta", "sync2"}
BoltRead(p) == /\ Kind = "bolt" /\ pc[p] = "go"
               /\ (loc[p].op # "Get" => ~Writing)
               /\ LET f == Effect(v, loc[p].op, loc[p].x) IN
                  /\ loc' = [loc EXCEPT ![p] = [@ EXCEPT !.res = f.res, !.out = f.out, !.new = f.v]]
                  /\ pc' = [pc EXCEPT ![p] = IF loc[p].op = "Get" \/ f.res # "ok" THEN "done" ELSE "pages"]
               /\ UNCHANGED <<v, dirty, disk, safe, cs, ws, calls, kills>>
BoltPages(p) == /\ pc[p] = "pages" /\ dirty' = {loc[p].new} /\ pc' = [pc EXCEPT ![p] = IF AckEarly THEN "done" ELSE "sync1"]
                /\ UNCHANGED <<v, disk, safe, loc, cs, ws, calls, kills>>
BoltSync1(p) == /\ pc[p] = "sync1" /\ pc' = [pc EXCEPT ![p] = "meta"] /\ safe' = IF "pages" \in Syncs THEN safe \cup dirty ELSE safe
                /\ UNCHANGED <<v, dirty, disk, loc, cs, ws, calls, kills>>
BoltMeta(p) == /\ pc[p] = "meta" /\ v' = loc[p].new /\ dirty' = {} /\ pc' = [pc EXCEPT ![p] = "sync2"]
               /\ UNCHANGED <<disk, safe, loc, cs, ws, calls, kills>>
BoltSync2(p) == /\ pc[p] = "sync2" /\ pc' = [pc EXCEPT ![p] = "done"]
                /\ IF "meta" \in Syncs THEN disk' = v /\ safe' = {v} ELSE UNCHANGED <<disk, safe>>
                /\ UNCHANGED <<v, dirty, loc, cs, ws, calls, kills>>
LateMeta == Kind = "bolt" /\ AckEarly /\ dirty # {} /\ v' = (CHOOSE x \in dirty : TRUE) /\ dirty' = {} /\ disk' = v' /\ safe' = {v'} /\ UNCHANGED <<pc, loc, cs, ws, calls, kills>>
Return(p) == /\ pc[p] = "done" /\ cs' = End(cs, p, loc[p].res, loc[p].out)
             /\ ws' = IF loc[p].op = "Get" THEN ws ELSE End(ws, p, loc[p].res, loc[p].out)
             /\ pc' = [pc EXCEPT ![p] = "idle"] /\ loc' = [loc EXCEPT ![p] = None] /\ UNCHANGED <<v, dirty, disk, safe, calls, kills>>
(* the process is killed: what it has written is what the next one reads, and syncs when it opens the file *)
Kill == /\ Kind = "bolt" /\ kills < MaxKills /\ kills' = kills + 1
        /\ cs' = Crash(cs) /\ ws' = Crash(cs) /\ disk' = v /\ safe' = {v} /\ dirty' = {} /\ pc' = [p \in Procs |-> "idle"] /\ loc' = [p \in Procs |-> None]
        /\ UNCHANGED <<v, calls>>
(* the machine stops: of what was not synced each page is there or not; a meta page that is there    *)
(* leads to its pages, which are garbage unless they are there too.  Readers see a transaction before *)
(* its last sync, so what they have read may be lost again; what a writer was told may not (ws).      *)
Power == /\ Kind = "bolt" /\ kills < MaxKills /\ kills' = kills + 1
         /\ \E m \in {disk, v} : \E there \in BOOLEAN :
              /\ v' = IF m = disk \/ m \in safe \/ there THEN m ELSE "garbage"
              /\ disk' = v' /\ safe' = {v'}
         /\ cs' = Crash(ws) /\ ws' = Crash(ws) /\ dirty' = {} /\ pc' = [p \in Procs |-> "idle"] /\ loc' = [p \in Procs |-> None]
         /\ UNCHANGED calls
Next == LateMeta \/ Kill \/ Power \/ \E p \in Procs : Call(p) \/ MemStep(p) \/ MemStore(p) \/ BoltRead(p) \/ BoltPages(p) \/ BoltSync1(p) \/ BoltMeta(p) \/ BoltSync2(p) \/ Return(p)
Spec == Init /\ [][Next]_vars
(* C22, C23: some order of the calls explains everything returned, and what is stored now *)
Explained == cs # {} /\ ((\A p \in Procs : pc[p] = "idle") => \E c \in cs : c.v = v)
===============================================================================
