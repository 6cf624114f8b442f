-------------------------------- MODULE TCuts --------------------------------
(* Trace specification for pyirf.cuts.                                        *)
EXTENDS TraceLib, Cuts

VARIABLES t, i
vars == <<t, i>>

OptQ(q) == IF q.u = "absent" THEN "none" ELSE QX(q)

(*--- calculate_percentile_cut ------------------------------------------------*)
(* Values near an edge in a different unit may fall on either side: such       *)
(* events are not generated.                                                   *)
JPercentile(ev) ==
    IF ~Ok(ev.out) THEN {"unexpected-exception"} ELSE
    LET out == ev.out
        V == QV(ev.vals)  B == QV(ev.bvals)  E == QV(ev.edges)  n == NBins(E)
        fill == QX(ev.fill)
        lo == OptQ(ev.lo)
        hi == OptQ(ev.hi)
        scale == NSumOver({"x"}, LAMBDA z :
                    LET f == SelectSeq(V, NIsFinite) IN IF Len(f) = 0 THEN "0" ELSE NMaxOf(SMap(NAbs, f)))
        rt == ev.rtol
        at == NMul(rt, NAdd(scale, IF NIsFinite(fill) THEN NAbs(fill) ELSE "0"))
        parts == Parts(V, BinsOf(B, E), n)
        many == ev.times # <<>>
        times == Parts(ev.times, BinsOf(B, E), n)
        Raw(p) == IF many THEN Ev([b \in 1..n |-> BinCutTimes(parts[b], times[b], p, fill, lo, hi, ev.min_events)])
                  ELSE RawCutsOf(parts, p, fill, lo, hi, ev.min_events)
        Want(p) == Smooth(Raw(NDiv(p, "100")), ev.sigma)
        cnt == [b \in 1..n |-> IF many THEN NSumOver(1..Len(times[b]), LAMBDA k : times[b][k]) ELSE Len(parts[b])]
    IN IF Len(out.low) # n \/ Len(out.high) # n \/ Len(out.center) # n \/ Len(out.n) # n \/ Len(out.cuts) # Len(ev.p)
          \/ \E j \in 1..Len(ev.p) : Len(out.cuts[j]) # n
       THEN {"shape"}
       ELSE Clause("bin-edges", \A b \in 1..n : /\ NClose(out.low[b], E[b], "1e-13", "0") /\ NClose(out.high[b], E[b + 1], "1e-13", "0")
                                                /\ NClose(out.center[b], Center(E, b), "1e-13", "1e-300"))
         \cup Clause("n-events", \A b \in 1..n : NEq(out.n[b], cnt[b]))
         \cup Clause("percentile-cut", \A j \in 1..Len(ev.p) : SClose(out.cuts[j], Want(ev.p[j]), rt, at))

(*--- evaluate_binned_cut -----------------------------------------------------*)
JEvaluate(ev) ==
    IF ev.kind # "qtable" THEN Clause("cut-table-must-be-QTable", Raised(ev.out, {"ValueError"}))
    ELSE IF ~Ok(ev.out) THEN {"unexpected-exception"} ELSE
    LET V == QV(ev.vals)  B == QV(ev.bvals)  E == QV(ev.edges)  C == QV(ev.cuts)
        exact == ev.vals.u = ev.cuts.u  bexact == ev.bvals.u = ev.edges.u
        near(k) == \/ ~bexact /\ NearEdge(B[k], E)
                   \/ ~exact /\ \E b \in 1..Len(C) : NClose(V[k], C[b], "1e-12", "0")
        m == ev.out.mask
        \* events the caller marked as not valid are never selected
        pre(k) == ev.pre = <<>> \/ ev.pre[k]
    IN IF Len(m) # Len(V) THEN {"shape"}
       ELSE Clause("mask", \A k \in 1..Len(V) : near(k) \/ m[k] = (pre(k) /\ Selected(V[k], B[k], E, C, ev.cmp)))

(*--- compare_irf_cuts ----------------------------------------------------------*)
Cols == {"low", "high", "cut"}
Flat(tb) == [c \in Cols |-> QV(tb[c])]
Same2(a, b) == \A c \in Cols : Len(a[c]) = Len(b[c]) /\ \A k \in 1..Len(a[c]) : NClose(a[c][k], b[c][k], "1e-14", "0")
Diff2(a, b) == \E c \in Cols : Len(a[c]) # Len(b[c]) \/ \E k \in 1..Len(a[c]) : ~NClose(a[c][k], b[c][k], "1e-9", "0")
JCompare(ev) ==
    IF ~Ok(ev.out) THEN {"unexpected-exception"} ELSE
    LET n == Len(ev.tables)
        F == Ev([k \in 1..n |-> Flat(ev.tables[k])])
        identical == \A k \in 1..(n - 1) : Same2(F[k], F[k + 1]) /\ \A c \in Cols : ev.tables[k][c].u = ev.tables[k + 1][c].u /\ ev.tables[k].shape = ev.tables[k + 1].shape
        differ == \E k \in 1..(n - 1) : Diff2(F[k], F[k + 1])
    IN (IF identical THEN Clause("same-cuts-match", ev.out.match) ELSE {})
       \cup (IF differ THEN Clause("different-cuts-do-not-match", ~ev.out.match) ELSE {})

Event == Traces[t].ev[i + 1]
Judge(ev) ==
    CASE ev.op = "percentile" -> JPercentile(ev)
      [] ev.op = "evaluate"   -> JEvaluate(ev)
      [] ev.op = "compare"    -> JCompare(ev)

Init == t \in DOMAIN Traces /\ i = 0
Next == /\ i < Len(Traces[t].ev)
        /\ i' = i + 1
        /\ t' = t
        /\ Report(Traces[t].id, i + 1, i + 1 = Len(Traces[t].ev), Judged(Event, Judge))
Spec == Init /\ [][Next]_vars
=============================================================================
