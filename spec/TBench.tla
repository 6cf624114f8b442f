------------------------------- MODULE TBench -------------------------------
(* Trace specification for pyirf.benchmarks.                                  *)
EXTENDS TraceLib, Benchmarks

VARIABLES t, i
vars == <<t, i>>

EdgesOK(out, E) ==
    LET n == NBins(E) IN
    \A b \in 1..n : /\ NClose(out.low[b], E[b], "1e-13", "0") /\ NClose(out.high[b], E[b + 1], "1e-13", "0")
                    /\ NClose(out.center[b], Center(E, b), "1e-13", "1e-300")
(* absolute tolerance relative to the largest value *)
Atol(V, r) == LET f == SelectSeq(V, NIsFinite) IN IF Len(f) = 0 THEN "0" ELSE NMul(r, NMaxOf(SMap(NAbs, f)))

JAngular(ev) ==
    IF ~Ok(ev.out) THEN {"unexpected-exception"} ELSE
    LET out == ev.out  E == QV(ev.edges)  n == NBins(E)  V == QV(ev.theta)
        parts == Parts(V, BinsOf(QV(ev.energy), E), n)
    IN IF Len(out.low) # n \/ Len(out.n) # n \/ Len(out.res) # Len(ev.q) \/ \E j \in 1..Len(ev.q) : Len(out.res[j]) # n THEN {"shape"}
       ELSE Clause("bin-edges", EdgesOK(out, E))
         \cup Clause("n-events", \A b \in 1..n : NEq(out.n[b], Len(parts[b])))
         \cup Clause("quantile-per-bin", \A j \in 1..Len(ev.q) :
                SClose(out.res[j], PerBin(parts, LAMBDA s : NanQuantile(s, ev.q[j])), ev.rtol, Atol(V, ev.rtol)))
JBias(ev) ==
    IF ~Ok(ev.out) THEN {"unexpected-exception"} ELSE
    LET out == ev.out  E == QV(ev.edges)  n == NBins(E)
        tr == QV(ev.true)  re == QV(ev.reco)
        err == Ev([k \in 1..Len(tr) |-> NSub(NDiv(re[k], tr[k]), "1")])
        parts == Parts(err, BinsOf(IF ev.type = "true" THEN tr ELSE re, E), n)
        at == NAdd(ev.rtol, Atol(err, ev.rtol))
    IN IF Len(out.low) # n \/ Len(out.n) # n \/ Len(out.bias) # n \/ Len(out.resolution) # n THEN {"shape"}
       ELSE Clause("bin-edges", EdgesOK(out, E))
         \cup Clause("n-events", \A b \in 1..n : NEq(out.n[b], Len(parts[b])))
         \cup Clause("bias-per-bin", SClose(out.bias, PerBin(parts, LAMBDA s : Stat(ev.fb, s)), ev.rtol, at))
         \cup Clause("resolution-per-bin", SClose(out.resolution, PerBin(parts, LAMBDA s : Stat(ev.fr, s)), ev.rtol, at))

(*--- from an energy dispersion ---------------------------------------------------*)
(* The median of a distribution with a gap at one half is any point of the gap.     *)
(* ev.rows[k]: density of one row                                                    *)
JFromDisp(ev) ==
    IF ~Ok(ev.out) THEN {"unexpected-exception"} ELSE
    LET E == ev.migra  w == SDiff(E)
        Row(d) == Ev([b \in 1..Len(w) |-> NMul(d[b], w[b])])
        Verdict(k) ==
            LET p == Row(ev.rows[k])  cum == CumAtEdge(p)
                b == ev.out.bias[k]  r == ev.out.resolution[k]
                empty == NEq(cum[Len(cum)], "0")
                med == NAdd(b, "1")
                res == NHalf(NSub(QuantileOfCdf(UpperSigma, E, cum), QuantileOfCdf(LowerSigma, E, cum)))
                (* first bin taken as concentrated at its upper edge *)
                Up(q) == IF NGe(cum[2], q) THEN E[2] ELSE QuantileOfCdf(q, E, cum)
            IN IF empty THEN Clause("empty-row-is-nan", NIsNan(b) /\ NIsNan(r))
               ELSE IF NClose(CdfAt(med, E, cum), "0.5", "0", "1e-9") /\ NClose(r, res, "1e-9", "1e-12") THEN {}
               ELSE IF /\ NGe(cum[2], LowerSigma)
                       /\ \/ NClose(b, NSub(Up("0.5"), "1"), "1e-9", "1e-12")
                          \/ NClose(CdfAt(med, E, cum), "0.5", "0", "1e-9")
                       /\ NClose(r, NHalf(NSub(Up(UpperSigma), Up(LowerSigma))), "1e-9", "1e-12")
                    THEN {"quantile-in-the-first-migration-bin-is-its-upper-edge"}
               ELSE {"quantiles-of-the-dispersion"}
    IN IF Len(ev.out.bias) # Len(ev.rows) \/ Len(ev.out.resolution) # Len(ev.rows) \/ ev.out.shape # ev.shape THEN {"shape"}
       ELSE UNION {Verdict(k) : k \in 1..Len(ev.rows)}

Event == Traces[t].ev[i + 1]
Judge(ev) ==
    CASE ev.op = "angular" -> JAngular(ev)
      [] ev.op = "bias" -> JBias(ev)
      [] ev.op = "from_dispersion" -> JFromDisp(ev)

Init == t \in DOMAIN Traces /\ i = 0
Next == /\ i < Len(Traces[t].ev)
        /\ i' = i + 1
        /\ t' = t
        /\ Report(Traces[t].id, i + 1, i + 1 = Len(Traces[t].ev), Judged(Event, Judge))
Spec == Init /\ [][Next]_vars
=============================================================================
