------------------------------- MODULE TTables ------------------------------
(***************************************************************************)
(* Trace specification for table validation (C33) and the EventDisplay      *)
(* reader (C34).  The state F maps a path to the contents of the file.      *)
(***************************************************************************)
EXTENDS TraceLib, Tables

VARIABLES t, i, F
vars == <<t, i, F>>
Event == Traces[t].ev[i + 1]

ToSetOf(s) == {s[k] : k \in 1..Len(s)}
JCheck(ev) ==
    LET o == IF Ok(ev.out) THEN [k |-> "ok"] ELSE [k |-> ev.out.k, type |-> ev.out.type, names |-> ToSetOf(ev.out.names)] IN
    Clause("check_table", CheckAllowed(ev.cols, ToSetOf(ev.req), ev.units, o))
JHist(ev) ==
    IF SameBinning(ev.a, ev.b) THEN Clause("equal-binning-accepted", Ok(ev.out) \/ AnyDoubt(ev.a, ev.b))
    ELSE Clause("different-binning-raises-ValueError", Raised(ev.out, {"ValueError"}))
JScalar(ev) == Clause("is_scalar", Ok(ev.out) /\ ev.out.r = (ev.ndim = 0))

JRead(ev) ==
    LET f == F[ev.path]  o == ev.out  h == f.header IN
    IF ~Complete(f) THEN Clause("missing-column-rejected", o.k = "raise")
    ELSE IF ~Ok(o) THEN {"unexpected-exception"}
    ELSE Clause("columns", DOMAIN o.events = {NewName(c) : c \in DOMAIN f.events})
         \cup (IF DOMAIN o.events # {NewName(c) : c \in DOMAIN f.events} THEN {} ELSE
               UNION {Clause("values of " \o c, SSame(o.events[NewName(c)].v, f.events[c].v))
                      \cup Clause("unit of " \o c, o.events[NewName(c)].u = f.events[c].u) : c \in DOMAIN f.events})
         \cup Clause("energy-range", NClose(o.emin, h.E_range[1], "1e-14", "0") /\ NClose(o.emax, h.E_range[2], "1e-14", "0"))
         \cup Clause("scatter-radius", NClose(o.impact, h.core_range[2], "1e-14", "0"))
         \cup Clause("view-cone", NClose(o.vmin, h.viewcone[1], "1e-14", "0") /\ NClose(o.vmax, h.viewcone[2], "1e-14", "0"))
         \cup Clause("spectral-index", NEq(o.index, h.spectral_index))
         \cup Clause("number-of-showers", NEq(o.n, Showers(f, ev.hist)))

Judge(ev) == CASE ev.op = "check" -> JCheck(ev) [] ev.op = "hist" -> JHist(ev) [] ev.op = "scalar" -> JScalar(ev)
               [] ev.op = "write" -> {} [] ev.op = "read" -> JRead(ev)

Init == t \in DOMAIN Traces /\ i = 0 /\ F = <<>>
Next == /\ i < Len(Traces[t].ev)
        /\ i' = i + 1
        /\ t' = t
        /\ F' = IF Event.op = "write" THEN (Event.path :> Event.file) @@ F ELSE F
        /\ Report(Traces[t].id, i + 1, i + 1 = Len(Traces[t].ev), Judged(Event, Judge))
Spec == Init /\ [][Next]_vars
=============================================================================
