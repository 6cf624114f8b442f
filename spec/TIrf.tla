-------------------------------- MODULE TIrf --------------------------------
(***************************************************************************)
(* Trace specification for pyirf.irf.  A session fixes a table kind and its *)
(* axes, fills events into the tally of the specification and observes the  *)
(* implementation on the events filled so far.                              *)
(***************************************************************************)
EXTENDS TraceLib, Irf

VARIABLES t, i, T
vars == <<t, i, T>>

Sess == Traces[t]
(* Coordinates of an event in the axes of the table: columns as given, except *)
(* for the dispersion, where the second one is the ratio of the energies.     *)
RowCoord(row, cu, kind) ==
    LET p == [k \in 1..Len(row) |-> Phys(row[k], cu[k])]
    IN IF kind = "edisp" THEN [p EXCEPT ![2] = NDiv(p[2], p[1])] ELSE p
Filled(ev) == FillRowsTimes(T, Ev([k \in 1..Len(ev.rows) |-> RowCoord(ev.rows[k], Sess.cu, Sess.kind)]), ev.w,
                            IF "times" \in DOMAIN ev THEN ev.times ELSE [k \in 1..Len(ev.rows) |-> 1])

LonLatOK(x, n, c, s, area) ==
    LET lo == NMul(c.lo, s)  hi == NMul(c.hi, s)  tol == NAdd(NMul(c.tol, s), NMul(c.hi, "1e-13")) IN
    \/ NLe(s, "1e-10")                    \* no energies simulated
    \/ NLe(lo, NMul(tol, "1e3")) /\ (n = 0 \/ NLe(hi, "0"))
    \/ n = 0 /\ NEq(x, "0")
    \/ n > 0 /\ NGe(NMul(x, NAdd(hi, tol)), NMul(NMul(n, area), "0.99999999"))
             /\ (NLe(lo, tol) \/ NLe(NMul(x, NSub(lo, tol)), NMul(NMul(n, area), "1.00000001")))

(* results come row-major: v[c] belongs to cell c *)
JEff(v) ==
    LET info == Ev(Info(Sess.info))  area == Area(info)  A == T.axes  n == T.n
        pe == PerEnergy(info, A[1])
        etol == NMul(info.n, "1e-13")
        D == Dims(A)
    IN CASE Sess.kind = "eff_e" ->
              Clause("effective-area", \A a \in 1..D[1] : EffOK(v[a], n[a], pe[a], etol, area))
         [] Sess.kind = "eff_ef" ->
              LET pf == PerFov(info, A[2])  tol == NMul(info.n, FovTol(info)) IN
              Clause("effective-area", \A a \in 1..D[1], b \in 1..D[2] :
                 LET c == Flat(<<a, b>>, D, 1) IN EffOK(v[c], n[c], NMul(pe[a], NDiv(pf[b], info.n)), tol, area))
         [] Sess.kind = "eff_polar" ->
              LET pf == PerFov(info, A[2])  pp == PosShare(A[3])  tol == NMul(info.n, FovTol(info)) IN
              Clause("effective-area", \A a \in 1..D[1], b \in 1..D[2], p \in 1..D[3] :
                 LET c == Flat(<<a, b, p>>, D, 1) IN
                 EffOK(v[c], n[c], NMul(NMul(pe[a], NDiv(pf[b], info.n)), pp[p]), tol, area))
         [] Sess.kind = "eff_lonlat" ->
              LET cells == LonLatCells(info, A[2], A[3], Sess.sub) IN
              Clause("effective-area", \A a \in 1..D[1], b \in 1..D[2], p \in 1..D[3] :
                 LET c == Flat(<<a, b, p>>, D, 1) IN LonLatOK(v[c], n[c], cells[b][p], NDiv(pe[a], info.n), area))

JDisp(v) ==
    LET A == T.axes  D == Dims(A) IN
    Clause("probability-density", \A a \in 1..D[1], f \in 1..D[3] :
        LET n == Over2(T, a, f) IN \A m \in 1..D[2] :
          NClose(v[C3(T, a, m, f)], IF n = 0 THEN "0" ELSE NDiv(NDiv(N3(T, a, m, f), n), Width(A[2], m)), "1e-9", "0"))
    \cup Clause("integrates-to-one-or-empty", \A a \in 1..D[1], f \in 1..D[3] :
          NClose(NSum(Ev([m \in 1..D[2] |-> NMul(v[C3(T, a, m, f)], Width(A[2], m))])),
                 IF Over2(T, a, f) = 0 THEN "0" ELSE "1", "1e-9", "0"))
JMig(v) ==
    LET A == T.axes  D == Dims(A) IN
    Clause("probability", \A a \in 1..D[1], f \in 1..D[3] :
        LET n == Over2(T, a, f) IN \A m \in 1..D[2] :
          NClose(v[C3(T, a, m, f)], IF n = 0 THEN "0" ELSE NDiv(N3(T, a, m, f), n), "1e-12", "0"))
JPsf(v) ==
    LET A == T.axes  D == Dims(A) IN
    Clause("density-per-solid-angle", \A a \in 1..D[1], f \in 1..D[2] :
        LET n == Over3(T, a, f) IN \A s \in 1..D[3] :
          NClose(v[C3(T, a, f, s)], IF n = 0 THEN "0" ELSE NDiv(NDiv(N3(T, a, f, s), n), SolidRing(A[3][s], A[3][s + 1])),
                 RingTol(A[3][s], A[3][s + 1]), "0"))
    \cup Clause("integrates-to-one-or-empty", \A a \in 1..D[1], f \in 1..D[2] :
          NClose(NSum(Ev([s \in 1..D[3] |-> NMul(v[C3(T, a, f, s)], SolidRing(A[3][s], A[3][s + 1]))])),
                 IF Over3(T, a, f) = 0 THEN "0" ELSE "1", NMaxOf([s \in 1..D[3] |-> RingTol(A[3][s], A[3][s + 1])]), "0"))
JBkg(v) ==
    LET A == T.axes  D == Dims(A)  tobs == QX(Sess.tobs)
        tot == NSum(SMap(NAbs, T.w)) IN
    IF Sess.kind = "bkg2d"
    THEN Clause("rate-integrates-to-the-weights", \A a \in 1..D[1], b \in 1..D[2] :
            LET c == Flat(<<a, b>>, D, 1)
                x == NMul(NMul(v[c], Width(A[1], a)), NMul(tobs, SolidRing(A[2][b], A[2][b + 1])))
            IN NClose(x, T.w[c], RingTol(A[2][b], A[2][b + 1]), NMul(tot, "1e-13")))
    ELSE Clause("rate-integrates-to-the-weights", \A a \in 1..D[1], b \in 1..D[2], l \in 1..D[3] :
            LET c == Flat(<<a, b, l>>, D, 1)
                x == NMul(NMul(v[c], Width(A[1], a)), NMul(tobs, RectSolid(A[2][b], A[2][b + 1], A[3][l], A[3][l + 1])))
            IN NClose(x, T.w[c], RectTol(A[3][l], A[3][l + 1]), NMul(tot, "1e-13")))

JObserve(ev) ==
    IF Sess.kind \in {"eff_ef", "eff_polar"} /\ PointLike(Info(Sess.info))
    THEN Clause("point-like-raises-ValueError", Raised(ev.out, {"ValueError"}))
    ELSE IF ~Ok(ev.out) THEN {"unexpected-exception"}
    ELSE IF ev.out.shape # [k \in 1..Len(T.axes) |-> NBins(T.axes[k])] \/ Len(ev.out.v) # NCells(T.axes) THEN {"axes"}
    ELSE CASE Sess.kind \in {"eff_e", "eff_ef", "eff_polar", "eff_lonlat"} -> JEff(ev.out.v)
           [] Sess.kind = "edisp" -> JDisp(ev.out.v)
           [] Sess.kind = "emig"  -> JMig(ev.out.v)
           [] Sess.kind = "psf"   -> JPsf(ev.out.v)
           [] Sess.kind \in {"bkg2d", "bkg3d"} -> JBkg(ev.out.v)

(* effective_area(n_selected, n_simulated, area) *)
JRatio(ev) ==
    IF UnitDim[ev.area.u] # "area" THEN Clause("not-an-area-rejected", ev.out.k = "raise")
    ELSE IF ~Ok(ev.out) THEN {"unexpected-exception"}
    ELSE Clause("ratio", Len(ev.out.v) = Len(ev.nsel) /\ \A k \in 1..Len(ev.nsel) :
            NClose(ev.out.v[k], EffArea(ev.nsel[k], ev.nsim[k], QX(ev.area)), "1e-12", "0"))

(*--- dispersion to migration -------------------------------------------------*)
(* ev.disp[e][m][f]; both binnings in canonical units.                          *)
(* Content below x of a histogram along the migration axis, for x at an edge    *)
(* (to rounding) or outside the range                                           *)
Snap(x, E) ==  \* number of the edge at x: 1 below, Len above, 0 if inside a bin
    IF NLe(x, NMul(E[1], "1.000000000001")) THEN 1
    ELSE IF NGe(x, NMul(E[Len(E)], "0.999999999999")) THEN Len(E)
    ELSE LET S == {j \in 1..Len(E) : NClose(x, E[j], "1e-12", "0")} IN IF S = {} THEN 0 ELSE CHOOSE j \in S : TRUE
JToMig(ev) ==
    IF ~Ok(ev.out) THEN {"unexpected-exception"} ELSE
    LET TE == QV(ev.te)  MG == ev.migra  NE == QV(ev.newte)  RE == QV(ev.reco)
        ne == NBins(NE)  nr == NBins(RE)  nf == Len(ev.disp[1][1])  nm == NBins(MG)
        M == ev.out.m
        w == SDiff(MG)
        ctr == Ev([a \in 1..ne |-> Center(NE, a)])
        snapE == Ev([a \in 1..(ne + 1) |-> Snap(NE[a], TE)])
        snapR == Ev([a \in 1..ne |-> [k \in 1..(nr + 1) |-> Snap(NDiv(RE[k], ctr[a]), MG)]])
        (* probabilities of the old true-energy bins merged in a new one *)
        prob(a, m, f) == NMul(NSum(Ev([e \in 1..(snapE[a + 1] - snapE[a]) |-> ev.disp[snapE[a] + e - 1][m][f]])), w[m])
        (* the same dispersion at all energies, in bins of one width: it is that of any new bin *)
        dE == SDiff(TE)
        same == Len(dE) > 1 /\ (\A e \in 2..Len(ev.disp) : ev.disp[e] = ev.disp[1]) /\ \A e \in 2..Len(dE) : NClose(dE[e], dE[1], "1e-13", "0")
        within(a) == same /\ NGe(NE[a], TE[1]) /\ NLe(NE[a + 1], TE[Len(TE)]) /\ NGt(NSub(NE[a + 1], NE[a]), NMul("1e-6", dE[1]))
        P == Ev([a \in 1..ne |-> [f \in 1..nf |-> IF within(a) THEN [m \in 1..nm |-> NMul(ev.disp[1][m][f], w[m])]
                                                 ELSE IF snapE[a] = 0 \/ snapE[a + 1] = 0 THEN <<>> ELSE [m \in 1..nm |-> prob(a, m, f)]]])
        N == Ev([a \in 1..ne |-> [f \in 1..nf |-> NSum(P[a][f])]])
        known(a) == within(a) \/ (snapE[a] # 0 /\ snapE[a + 1] # 0)
        row(a, f) == Ev([k \in 1..nr |-> M[a][k][f]])
        covers(a) == snapR[a][1] = 1 /\ snapR[a][nr + 1] = Len(MG)
    IN IF Len(M) # ne \/ (\E a \in 1..ne : Len(M[a]) # nr \/ \E k \in 1..nr : Len(M[a][k]) # nf) THEN {"axes"} ELSE
    Clause("finite", \A a \in 1..ne, k \in 1..nr, f \in 1..nf : NIsFinite(M[a][k][f]))
    \cup Clause("zero-where-the-dispersion-is-empty", \A a \in 1..ne, f \in 1..nf :
            (known(a) /\ NEq(N[a][f], "0")) => \A k \in 1..nr : NEq(M[a][k][f], "0"))
    \cup Clause("row-sum-one-when-covering", \A a \in 1..ne, f \in 1..nf :
            (covers(a) /\ known(a) /\ ~NEq(N[a][f], "0")) => NClose(NSum(row(a, f)), "1", "1e-8", "0"))
    \cup Clause("bin-probabilities", \A a \in 1..ne, f \in 1..nf :
            (known(a) /\ ~NEq(N[a][f], "0")) =>
              LET R == row(a, f)
                  kn == {k \in 1..(nr + 1) : snapR[a][k] # 0}
                  cum(k) == NDiv(NSum(SubSeq(P[a][f], 1, snapR[a][k] - 1)), N[a][f])
              IN \A x \in kn : \A y \in kn : (x < y /\ ~\E z \in kn : x < z /\ z < y) =>
                   NClose(NSum(SubSeq(R, x, y - 1)), NSub(cum(y), cum(x)), "1e-8", "1e-8"))

Event == Traces[t].ev[i + 1]
Judge(ev) ==
    CASE ev.op = "fill" -> {}
      [] ev.op = "observe" -> JObserve(ev)
      [] ev.op = "ratio" -> JRatio(ev)
      [] ev.op = "to_migration" -> JToMig(ev)

Init == /\ t \in DOMAIN Traces
        /\ i = 0
        /\ T = IF Has(Traces[t], "ax") THEN EmptyTally([k \in 1..Len(Traces[t].ax) |-> QV(Traces[t].ax[k])]) ELSE <<>>
Next == /\ i < Len(Traces[t].ev)
        /\ i' = i + 1
        /\ t' = t
        /\ T' = IF Event.op = "fill" THEN Filled(Event) ELSE T
        /\ Report(Traces[t].id, i + 1, i + 1 = Len(Traces[t].ev), Judged(Event, Judge))
Spec == Init /\ [][Next]_vars
=============================================================================
