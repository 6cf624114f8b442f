------------------------------ MODULE TBinning ------------------------------
(***************************************************************************)
(* Trace specification for pyirf.binning: judges every recorded call.       *)
(***************************************************************************)
EXTENDS TraceLib, Binning

VARIABLES t, i, h
vars == <<t, i, h>>

UnderSentinel == "-9223372036854775808"
OverSentinel  == "9223372036854775807"

(*--- calculate_bin_indices --------------------------------------------------*)
JIndices(ev) ==
    LET out == ev.out IN
    IF ev.data.u # "none" /\ ev.edges.u = "none"
    THEN Clause("unitless-bins-must-raise-TypeError", Raised(out, {"TypeError"}))
    ELSE IF ~Ok(out) THEN {"unexpected-exception"}
    ELSE LET V == QV(ev.data)  E == QV(ev.edges)  exact == SameUnit(ev.data, ev.edges) IN
    IF Len(out.idx) # Len(V) \/ Len(out.valid) # Len(V) THEN {"shape"}
    ELSE LET badIdx == {k \in 1..Len(V) :
               ~\E b \in Candidates(V[k], E, exact, FALSE) :
                   out.idx[k] = (IF b <= 0 THEN UnderSentinel
                                 ELSE IF b > NBins(E) THEN OverSentinel
                                 ELSE ToString(b - 1)) }
             badVal == {k \in 1..Len(V) :
               out.valid[k] # (out.idx[k] # UnderSentinel /\ out.idx[k] # OverSentinel)}
         IN Clause("bin-index", badIdx = {}) \cup Clause("valid-mask", badVal = {})

(*--- create_histogram_table -------------------------------------------------*)
(* The session fills the specification's histogram event by event ("fill")   *)
(* and calls the implementation on the events so far ("observe").            *)
JObserve(ev) ==
    LET out == ev.out  n == NBins(h.edges) IN
    IF ~Ok(out) THEN {"unexpected-exception"}
    ELSE IF ~(Len(out.low) = n /\ Len(out.high) = n /\ Len(out.center) = n
              /\ Len(out.n) = n /\ Len(out.nw) = n) THEN {"shape"}
    ELSE Clause("low-edges", \A b \in 1..n : NClose(out.low[b], h.edges[b], "1e-14", "0"))
      \cup Clause("high-edges", \A b \in 1..n : NClose(out.high[b], h.edges[b + 1], "1e-14", "0"))
      \cup Clause("centers", \A b \in 1..n : NClose(out.center[b], Center(h.edges, b), "1e-13", "0"))
      \cup Clause("event-count", \A b \in 1..n : NEq(out.n[b], h.n[b]))
      \cup Clause("weighted-count", \A b \in 1..n : NClose(out.nw[b], h.w[b], "1e-12", "1e-300"))
      \cup Clause("particle-types", {out.types[k] : k \in 1..Len(out.types)} = h.types
                                    /\ Len(out.types) = Cardinality(h.types))
      \cup (IF {out.types[k] : k \in 1..Len(out.types)} # h.types THEN {}
            ELSE Clause("type-count", \A k \in 1..Len(out.types) : \A b \in 1..n :
                          NEq(out.nt[k][b], h.nt[out.types[k]][b]))
              \cup Clause("type-weighted-count", \A k \in 1..Len(out.types) : \A b \in 1..n :
                          NClose(out.wt[k][b], h.wt[out.types[k]][b], "1e-12", "1e-300")))

(*--- edge helpers ------------------------------------------------------------*)
RowsSame(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : SSame(a[k], b[k])
JSplit(ev) ==
    IF ~Ok(ev.out) THEN {"unexpected-exception"}
    ELSE Clause("split-low", RowsSame(ev.out.lo, [k \in 1..Len(ev.rows) |-> Lo(ev.rows[k])]))
      \cup Clause("split-high", RowsSame(ev.out.hi, [k \in 1..Len(ev.rows) |-> Hi(ev.rows[k])]))
      \cup Clause("join-of-split", RowsSame(ev.out.joined, ev.rows))
      \cup Clause("unit", ev.out.unitkept)
JJoin(ev) ==
    LET match == \A k \in 1..Len(ev.lo) : JoinOK(ev.lo[k], ev.hi[k])
        clear == \A k \in 1..Len(ev.lo) : \A j \in 1..(Len(ev.lo[k]) - 1) :
                    \/ JoinClose(ev.lo[k], ev.hi[k], j, "1e-7", "1e-10")
                    \/ ~JoinClose(ev.lo[k], ev.hi[k], j, "1e-3", "1e-3")
    IN IF ~clear THEN {}
       ELSE IF ~match THEN Clause("mismatch-must-raise-ValueError", Raised(ev.out, {"ValueError"}))
       ELSE IF ~Ok(ev.out) THEN {"unexpected-exception"}
       ELSE Clause("join", RowsSame(ev.out.joined, [k \in 1..Len(ev.lo) |-> Join(ev.lo[k], ev.hi[k])]))
         \cup Clause("unit", ev.out.unitkept)
JOverflow(ev) ==
    IF ~Ok(ev.out) THEN {"unexpected-exception"}
    ELSE Clause("overflow-edges", SSame(ev.out.edges, WithOverflow(ev.edges, ev.positive)))
      \cup Clause("unit", ev.out.unitkept)
JCenter(ev) ==
    IF ~Ok(ev.out) THEN {"unexpected-exception"}
    ELSE Clause("center", Len(ev.out.c) = NBins(ev.edges) /\
           \A b \in 1..NBins(ev.edges) : NClose(ev.out.c[b], Center(ev.edges, b), "1e-13", "1e-300"))
      \cup Clause("unit", ev.out.unitkept)
(* edge k (from 0) is emin * 10^(k/n); included while it does not exceed the *)
(* upper limit (with a slack of about 1e-4 of the spacing)                   *)
JDecade(ev) ==
    IF ~Ok(ev.out) THEN {"unexpected-exception"}
    ELSE LET e0 == QX(ev.emin)  e1 == QX(ev.emax)
             L == NMul(NLog10(NDiv(e1, e0)), ev.n)          \* length in steps
             E == ev.out.edges   m == Len(E)
         IN Clause("first-edge", m >= 1 /\ NClose(E[1], e0, "1e-12", "0"))
         \cup Clause("log-spacing", \A k \in 1..m : NClose(E[k], NMul(e0, NPow("10", NDiv(k - 1, ev.n))), "1e-10", "0"))
         \cup Clause("beyond-upper-limit", m = 0 \/ NLe(m - 1, NAdd(L, "2e-4")))
         \cup Clause("edge-missing", NGe(m, NSub(L, "1e-9")))
         \cup Clause("unit-of-e_min", ev.out.unit = ev.emin.u)

(*--- resample_histogram1d ------------------------------------------------------*)
(* Slices along the axis, before and after; F = content below a knot.  Between  *)
(* two new edges that are knots the new content is the old content.             *)
JResample(ev) ==
    IF ~Ok(ev.out) THEN {"unexpected-exception"}
    ELSE LET E == QV(ev.old)  M == QV(ev.new)
             knots == {k \in 1..Len(M) : Knot(M[k], E)}
             S == ev.data   R == ev.out.data
         IN IF ~(Len(R) = Len(S) /\ \A s \in 1..Len(S) : Len(R[s]) = NBins(M)) THEN {"shape"}
         ELSE
         Clause("unit", ev.out.unitkept)
         \cup Clause("content-between-knots",
              \A s \in 1..Len(S) :
                LET scale == NAdd(NSum(SMap(NAbs, S[s])), "1e-300") IN
                \A a \in knots : \A b \in knots :
                  (a < b /\ ~\E c \in knots : a < c /\ c < b) =>
                    NClose(NSum(SubSeq(R[s], a, b - 1)),
                           NSub(CumAt(M[b], E, S[s]), CumAt(M[a], E, S[s])),
                           "1e-9", NMul(scale, "1e-9")))
         \cup Clause("empty-stays-empty",
              \A s \in 1..Len(S) : (\A b \in 1..Len(S[s]) : NEq(S[s][b], "0")) =>
                \A b \in 1..Len(R[s]) : NEq(R[s][b], "0"))

(*--------------------------------------------------------------------------------*)
Event == Traces[t].ev[i + 1]

Judge(ev) ==
    CASE ev.op = "indices"  -> JIndices(ev)
      [] ev.op = "fill"     -> {}
      [] ev.op = "observe"  -> JObserve(ev)
      [] ev.op = "split"    -> JSplit(ev)
      [] ev.op = "join"     -> JJoin(ev)
      [] ev.op = "overflow" -> JOverflow(ev)
      [] ev.op = "center"   -> JCenter(ev)
      [] ev.op = "decade"   -> JDecade(ev)
      [] ev.op = "resample" -> JResample(ev)

Step(ev) == IF ev.op = "fill"
            THEN Ev(FillTimes(h, [v |-> QX(ev.v), w |-> ev.w, p |-> ev.p], IF "times" \in DOMAIN ev THEN ev.times ELSE 1))
            ELSE h

Init == /\ t \in DOMAIN Traces
        /\ i = 0
        /\ h = IF Has(Traces[t], "edges") THEN EmptyHist(QV(Traces[t].edges)) ELSE EmptyHist(<<"0", "1">>)
Next == /\ i < Len(Traces[t].ev)
        /\ i' = i + 1
        /\ t' = t
        /\ h' = Step(Event)
        /\ Report(Traces[t].id, i + 1, i + 1 = Len(Traces[t].ev), Judged(Event, Judge))
Spec == Init /\ [][Next]_vars
=============================================================================
