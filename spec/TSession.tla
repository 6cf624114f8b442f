------------------------------ MODULE TSession ------------------------------
(***************************************************************************)
(* Trace specification of sessions (C30, C31, C32).                         *)
(***************************************************************************)
EXTENDS TraceLib, Session

VARIABLES t, i, F
vars == <<t, i, F>>
Event == Traces[t].ev[i + 1]

(* the heap is reported completely after every event that has it *)
JHeap(ev, S) == LET c == Changed(F.heap, ev.heap, S) IN IF c = {} THEN {} ELSE {"changed: " \o ToString(c)}

JCall(ev) ==
    JHeap(ev, {})
    \cup (IF ev.key \in DOMAIN F.memo THEN Clause("result-depends-on-history", SameOutcome(ev.out, F.memo[ev.key], Repeat)) ELSE {"no-reference"})
JExpress(ev) ==
    Clause("driver:same-quantity", \A n \in DOMAIN ev.leaves :
        SameQuantity(F.base[n][1], F.base[n][2], ev.leaves[n][1], ev.leaves[n][2]))
    \cup Clause("result-depends-on-units", SameOutcome(ev.out, F.memo[ev.key], Again(ev.cls)))
JReject(ev) ==
    Clause("driver:other-dimension", UDims(ev.unit) # UDims(F.base[ev.leaf][2]))
    \cup Clause("incompatible-unit-accepted", ev.out.k = "raise")
    \cup (IF Has(ev, "heap") THEN JHeap(ev, {}) ELSE {})         \* a refused call leaves everything as it was
JPermute(ev) ==
    Clause("driver:permutation", \A n \in DOMAIN ev.perm : IsPerm(ev.perm[n]))
    \cup Clause("result-depends-on-event-order",
        IF ev.rows = "" THEN SameOutcome(ev.out, F.memo[ev.key], Again(ev.cls))
        ELSE SamePermuted(ev.out, F.memo[ev.key], ev.perm[ev.rows], Again(ev.cls)))
JPart(ev) ==
    Clause("driver:partition", IsPerm(ev.rows[1] \o ev.rows[2]))
    \cup Clause("parts-do-not-add-up", SumsTo(ev.out[1], ev.out[2], F.memo[ev.key], Again(ev.cls)))

Judge(ev) ==
    CASE ev.op = "fresh" -> {}
      [] ev.op = "call" -> JCall(ev)
      [] ev.op = "scribble" -> JHeap(ev, {ev.obj})
      [] ev.op = "become" -> JHeap(ev, {ev.objs[k] : k \in 1..Len(ev.objs)})
      [] ev.op = "express" -> JExpress(ev)
      [] ev.op = "reject" -> JReject(ev)
      [] ev.op = "permute" -> JPermute(ev)
      [] ev.op = "part" -> JPart(ev)

Init == t \in DOMAIN Traces /\ i = 0 /\ F = [memo |-> <<>>, heap |-> Traces[t].heap, base |-> Traces[t].base]
Next == /\ i < Len(Traces[t].ev)
        /\ i' = i + 1
        /\ t' = t
        /\ F' = [F EXCEPT !.memo = IF Event.op = "fresh" THEN (Event.key :> Event.out) @@ @ ELSE @,
                          !.heap = IF Has(Event, "heap") THEN Event.heap ELSE @]
        /\ Report(Traces[t].id, i + 1, i + 1 = Len(Traces[t].ev), Judged(Event, Judge))
Spec == Init /\ [][Next]_vars
=============================================================================
