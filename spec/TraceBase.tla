------------------------------ MODULE TraceBase ------------------------------
(* Judging recorded executions of the real code.                              *)
(*                                                                            *)
(* Each line of the trace file is one execution: [id, kind, note, ev].  TLC   *)
(* starts one behaviour per execution and consumes one event per step; the    *)
(* specification's verdict on an event is Judge(trace, event, index, state).  *)
(* It yields [ok, st, blame, why, find]: whether the specification allows the *)
(* event, the specification's state after it, the properties an event that is *)
(* not allowed breaks, why, and named deviations it proves.                   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS InitSt(_), Judge(_, _, _, _)

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tix, pos, sys, halt

TraceInit == /\ tix \in 1..Len(Traces)
             /\ pos = 0
             /\ sys = InitSt(Traces[tix])
             /\ halt = FALSE

Report(kind, r) == PrintT("@" \o kind \o " " \o ToJson(r))

TraceNext ==
  /\ ~halt
  /\ pos < Len(Traces[tix].ev)
  /\ pos' = pos + 1
  /\ tix' = tix
  /\ LET tr == Traces[tix]
         e  == tr.ev[pos + 1]
         j  == Judge(tr, e, pos + 1, sys)
     IN /\ sys' = j.st
        /\ halt' = ~j.ok
        /\ \A f \in j.find : Report("F", [trace |-> tr.id, at |-> pos + 1, find |-> f])
        /\ IF ~j.ok THEN Report("R", [trace |-> tr.id, at |-> pos + 1, blame |-> j.blame, why |-> j.why])
           ELSE IF pos + 1 = Len(tr.ev) THEN Report("D", [trace |-> tr.id]) ELSE TRUE

TraceSpec == TraceInit /\ [][TraceNext]_<<tix, pos, sys, halt>>
=============================================================================
