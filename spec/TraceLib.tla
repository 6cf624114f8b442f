------------------------------ MODULE TraceLib ------------------------------
(***************************************************************************)
(* Common part of all trace specifications.                                 *)
(*                                                                         *)
(* A trace file holds one recorded session of the implementation per line:  *)
(*     {"id": "...", "ev": [event, event, ...], ...}                        *)
(* A trace specification starts one behaviour per session and consumes one  *)
(* event per step; the step is always enabled, the verdict on the event is  *)
(* the set of clauses of the specification that it violates (empty: the     *)
(* event is a behaviour of the specification).                              *)
(***************************************************************************)
EXTENDS Num, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

(* {} if cond holds, otherwise the name of the violated clause *)
Clause(name, cond) == IF cond THEN {} ELSE {name}

(* An outcome is [k |-> "ok", ...] or [k |-> "raise", type |-> "ValueError"] *)
Ok(out)            == out.k = "ok"
Raised(out, types) == out.k = "raise" /\ out.type \in types

Has(r, f) == f \in DOMAIN r

(* The verdict of one event, printed for the launcher when it is a rejection *)
Report(id, l, last, bad) ==
    /\ IF bad = {} THEN TRUE
       ELSE PrintT("REJECT|" \o id \o "|" \o ToString(l) \o "|" \o ToString(bad))
    /\ IF last THEN PrintT("DONE|" \o id \o "|" \o ToString(l)) ELSE TRUE

(* A driver that is stopped by the library while it builds valid objects ends  *)
(* its recording with the event "refused".                                     *)
Judged(ev, Judge(_)) == IF ev.op = "refused" THEN {"valid-call-refused: " \o ev.what} ELSE Judge(ev)
=============================================================================
