------------------------------- MODULE TSens -------------------------------
(* Trace specification for pyirf.statistics, sensitivity, cut_optimization.   *)
EXTENDS TraceLib, Sensitivity

VARIABLES t, i
vars == <<t, i>>

(*--- li_ma_significance ------------------------------------------------------*)
LiMaClauses(s, on, off, al) ==
    LET ts == LiMaTS(on, off, al)
        err == LiMaErr(on, off, al)
        lim == NMul(al, off)
    IN Clause("finite-nonnegative", NIsFinite(s) /\ NNonNeg(s))
       \cup Clause("zero-at-or-below-expectation",
                   (NEq(on, lim) \/ NLt(on, NMul(lim, "0.999999999999999"))) => NEq(s, "0"))
       \cup (IF ~NIsFinite(s) THEN {} ELSE
             Clause("formula-17", NClose(NHalf(NMul(s, s)), ts, "1e-12", err)))
JLiMa(ev) ==
    IF ~Ok(ev.out) THEN {"unexpected-exception"} ELSE
    Clause("shape", ev.out.shape = ev.shape /\ Len(ev.out.s) = Len(ev.on))
    \cup Clause("scalar-in-scalar-out", ev.scalar = ev.out.scalar)
    \cup (IF Len(ev.out.s) # Len(ev.on) THEN {} ELSE
          UNION {LiMaClauses(ev.out.s[k], ev.on[k], ev.off[k], ev.al[k]) : k \in 1..Len(ev.on)})

(*--- relative_sensitivity ------------------------------------------------------*)
CritOf(ev, k) == [f |-> ev.f, sig |-> ev.sig[k], events |-> ev.events[k], excess |-> ev.excess[k]]
JRel(ev) ==
    LET neg == \E k \in 1..Len(ev.on) : ~NIsNan(ev.on[k]) /\ ~NIsNan(ev.off[k]) /\ (NLt(ev.on[k], "0") \/ NLt(ev.off[k], "0"))
    IN IF neg THEN Clause("negative-counts-raise-ValueError", Raised(ev.out, {"ValueError"}))
       ELSE IF ~Ok(ev.out) THEN {"unexpected-exception"} ELSE
       IF Len(ev.out.r) # Len(ev.on) \/ ev.out.shape # ev.shape THEN {"shape"}
       ELSE UNION {RelSensVerdict(ev.out.r[k], ev.on[k], ev.off[k], ev.al[k], CritOf(ev, k)) : k \in 1..Len(ev.on)}

(*--- estimate_background ----------------------------------------------------------*)
(* columns out.cols: name -> row; expected: count / weight of the ring events      *)
BgEvent(e, k) == [off |-> Phys(e.offset.v[k], e.offset.u), en |-> Phys(e.energy.v[k], e.energy.u),
                  w |-> IF e.weight = <<>> THEN "1" ELSE e.weight[k], p |-> IF e.ptype = <<>> THEN "" ELSE e.ptype[k], m |-> IF e.times = <<>> THEN 1 ELSE e.times[k]]
JBackground(ev) ==
    IF ~Ok(ev.out) THEN {"unexpected-exception"} ELSE
    LET e == ev.events
        E == QV(ev.edges)  n == NBins(E)
        lo == QX(ev.lo)  hi == QX(ev.hi)
        all == Ev([k \in 1..Len(e.offset.v) |-> BgEvent(e, k)])
        ring == Ev(SelectSeq([k \in 1..Len(all) |-> [v |-> all[k].en, w |-> all[k].w, p |-> all[k].p, m |-> all[k].m, in |-> InRing(all[k].off, lo, hi)]],
                          LAMBDA x : x.in))
        h == HistOfTimes(E, ring)
        TC == QV(ev.tcenter)  TV == QV(ev.tcut)
        th == Ev([b \in 1..n |-> Interp(Center(E, b), TC, TV)])
        ratio == Ev([b \in 1..n |-> SizeRatio(th[b], lo, hi, ev.alpha)])
        tol == Ev([b \in 1..n |-> SizeErr(th[b], lo, hi)])
        Row(name, want) == Clause("column-" \o name,
            name \in DOMAIN ev.out.cols /\ Len(ev.out.cols[name]) = n
            /\ \A b \in 1..n : NClose(ev.out.cols[name][b], NMul(want[b], ratio[b]), tol[b], "1e-300"))
    IN Row("n", h.n) \cup Row("n_weighted", h.w)
       \cup UNION {Row("n_" \o p, h.nt[p]) \cup Row("n_" \o p \o "_weighted", h.wt[p]) : p \in h.types}
       \cup Clause("edges", Len(ev.out.low) = n /\ Len(ev.out.high) = n /\ Len(ev.out.center) = n /\ \A b \in 1..n :
               /\ NClose(ev.out.low[b], E[b], "1e-13", "0") /\ NClose(ev.out.high[b], E[b + 1], "1e-13", "0")
               /\ NClose(ev.out.center[b], Center(E, b), "1e-13", "1e-300"))

(*--- calculate_sensitivity ----------------------------------------------------------*)
SigClause(s, on, off, al, f) ==
    IF ~NIsFinite(on) \/ ~NIsFinite(off) THEN {}
    ELSE IF f = "lima" THEN Clause("significance", NIsFinite(s) /\ NClose(NHalf(NMul(s, s)), LiMaTS(on, off, al), "1e-12", LiMaErr(on, off, al)))
    ELSE IF NearBlind(f, off) THEN {}
    ELSE IF Blind(f, off) THEN Clause("significance", NIsNan(s))
    ELSE Clause("significance", NClose(s, Sig(f, on, off, al), "1e-11", "1e-9"))

JSens(ev) ==
    IF ~ev.same THEN Clause("different-binning-raises-ValueError", Raised(ev.out, {"ValueError"}))
    ELSE IF ~Ok(ev.out) THEN {"unexpected-exception"} ELSE
    LET n == Len(ev.sn)  o == ev.out.cols  al == ev.alpha  bw == ev.bg["n_weighted"]
        crit == [f |-> ev.f, sig |-> ev.sig, events |-> ev.events, excess |-> ev.excess]
        names == {"n_signal", "n_signal_weighted", "n_background", "n_background_weighted", "significance", "relative_sensitivity"}
        Same(name, src) == Clause("column-" \o name, name \in DOMAIN o /\ Len(o[name]) = n /\ \A b \in 1..n : NClose(o[name][b], src[b], "1e-14", "0"))
    IN IF \E c \in names : c \notin DOMAIN o \/ Len(o[c]) # n THEN {"columns"}
       ELSE
       UNION {RelSensVerdict(o.relative_sensitivity[b], NAdd(ev.sw[b], NMul(al, bw[b])), bw[b], al, crit) : b \in 1..n}
       \cup Clause("signal-scaled", \A b \in 1..n : NClose(o.n_signal[b], NMul(ev.sn[b], o.relative_sensitivity[b]), "1e-13", "0"))
       \cup Clause("signal-weighted-scaled", \A b \in 1..n : NClose(o.n_signal_weighted[b], NMul(ev.sw[b], o.relative_sensitivity[b]), "1e-13", "0"))
       \cup Same("n_background", ev.bg["n"]) \cup Same("n_background_weighted", bw)
       \cup UNION {Same(c, ev.bg[c]) : c \in DOMAIN ev.bg \ {"n", "n_weighted"}}
       \cup UNION {SigClause(o.significance[b], NAdd(o.n_signal_weighted[b], NMul(al, bw[b])), bw[b], al, ev.f) : b \in 1..n}
       \cup Clause("edges", \A b \in 1..n : /\ NClose(ev.out.low[b], ev.low[b], "1e-13", "0")
                                            /\ NClose(ev.out.high[b], ev.high[b], "1e-13", "0")
                                            /\ NClose(ev.out.center[b], ev.center[b], "1e-13", "0"))

(*--- cut optimisation --------------------------------------------------------------*)
(* ev.sig, ev.bkg: event columns; gh in any unit, theta in ev.tu, everything else    *)
(* physical.  A combination is <<multiplicity index, gh index, theta index>>,        *)
(* visited in that order.                                                            *)
Near(a, b) == NClose(a, b, "1e-9", "1e-12")

(* percentile cuts of one bin for the given events, per efficiency; a bin with       *)
(* fewer than ten events has the fill value                                          *)
PCut(vs, frac, fill, lo, hi) == BinCut(vs, frac, fill, lo, hi, 10)

BinProblem(ev, b, S, B, thOf, thint, tclip) ==
    (* S, B: sequences of [gh, th, bin, mult, w, p] / [gh, bin, mult, w, p] of this bin *)
    LET up == ev.cmp \in {"ge", "gt"}
        nm == Len(ev.mults)  ng == Len(ev.gheff)  nt == Len(thOf[1])
        frac == Ev([g \in 1..ng |-> IF up THEN NSub("1", ev.gheff[g]) ELSE ev.gheff[g]])
        \* events that survive the multiplicity cut
        SM == Ev([m \in 1..nm |-> SelectSeq(S, LAMBDA e : NGe(e.mult, ev.mults[m]))])
        BM == Ev([m \in 1..nm |-> SelectSeq(B, LAMBDA e : NGe(e.mult, ev.mults[m]))])
        ghs == Ev([m \in 1..nm |-> LET v == [k \in 1..Len(SM[m]) |-> SM[m][k].gh] IN [g \in 1..ng |-> PCut(v, frac[g], ev.fill, "none", "none")]])
        ths == thOf
        row == ev.out.rows[b]
        lo == QX(ev.lo)  hi == QX(ev.hi)
        crit == [f |-> ev.f, sig |-> ev.minsig, events |-> ev.minevents, excess |-> ev.minexcess]
        \* events selected by exact comparison with given cuts
        SelS(m, g, h) == SelectSeq(SM[m], LAMBDA e : OpHolds(ev.cmp, e.gh, g) /\ NLe(e.th, h))
        SelB(m, g) == SelectSeq(BM[m], LAMBDA e : OpHolds(ev.cmp, e.gh, g) /\ InRing(e.off, lo, hi))
        Wt(s) == NSum(Ev([k \in 1..Len(s) |-> s[k].w]))
        OfType(s, p) == SelectSeq(s, LAMBDA e : e.p = p)
        \* the returned combination
        mi == {m \in 1..nm : NEq(ev.mults[m], row.mult)}
        gi == {g \in 1..ng : NEq(ev.gheff[g], row.gheff)}
        ti == {h \in 1..nt : ev.op = "optimize_gh" \/ NEq(ev.theff[h], row.theff)}
    IN IF mi = {} \/ gi = {} \/ ti = {} THEN {"efficiency-not-on-the-grid"} ELSE
    LET m0 == CHOOSE m \in mi : TRUE  g0 == CHOOSE g \in gi : TRUE  h0 == CHOOSE h \in ti : TRUE
        cutsOK == NClose(row.gh, ghs[m0][g0], "1e-9", "1e-12")
                  /\ (ev.op = "optimize_gh" \/ NClose(row.th, ths[m0][h0], "1e-9", "1e-12"))
        s0 == SelS(m0, row.gh, IF ev.op = "optimize_gh" THEN "0" ELSE row.th)
        b0 == SelB(m0, row.gh)
        size(h) == SizeRatio(Phys(h, ev.tu), lo, hi, ev.alpha)
        tol == SizeErr(Phys(IF ev.op = "optimize_gh" THEN thint ELSE row.th, ev.tu), lo, hi)
        \* cut that gives the size of the on region
        thRow == IF ev.op = "optimize_gh" THEN thint ELSE row.th
        ThSize(m, h) == IF ev.op = "optimize_gh" THEN thint ELSE ths[m][h]
        ratio == size(thRow)
        al == ev.alpha
        r == row.relative_sensitivity
        off == NMul(Wt(b0), ratio)
        on == NAdd(Wt(s0), NMul(al, off))
        isC(x, y) == NClose(x, y, tol, "1e-300")
        \* combinations whose selection cannot be affected by rounding of the percentile
        Clear(m, g) == \A k \in 1..Len(SM[m]) : ~Near(SM[m][k].gh, ghs[m][g]) \/ NEq(ghs[m][g], ev.fill)
        ClearB(m, g) == \A k \in 1..Len(BM[m]) : ~Near(BM[m][k].gh, ghs[m][g]) \/ NEq(ghs[m][g], ev.fill)
        ClearT(m, h) == \A k \in 1..Len(SM[m]) : ev.op = "optimize_gh" \/ ths[m][h] \in tclip \/ ~Near(SM[m][k].th, ths[m][h])
        Ok3(m, g, h) == Clear(m, g) /\ ClearB(m, g) /\ ClearT(m, h)
        Off(m, g, h) == NMul(Wt(SelB(m, ghs[m][g])), size(ThSize(m, h)))
        SigW(m, g, h) == Wt(SelS(m, ghs[m][g], ths[m][h]))
        combos == {<<m, g, h>> \in (1..nm) \X (1..ng) \X (1..nt) : Ok3(m, g, h)}
        Before(x, y) == \/ x[1] < y[1]
                        \/ x[1] = y[1] /\ x[2] < y[2]
                        \/ x[1] = y[1] /\ x[2] = y[2] /\ x[3] < y[3]
        Beats(x) == LET o == Ev(Off(x[1], x[2], x[3]))  n == NAdd(Ev(SigW(x[1], x[2], x[3])), NMul(al, o)) IN
            IF NLe(Signal(n, o, al), NMul("1e-12", n)) THEN FALSE
            ELSE IF Blind(ev.f, o) \/ NearBlind(ev.f, o) THEN FALSE
            ELSE IF ~NIsFinite(r) THEN TRUE
            ELSE Meets(NMul(r, NSub("1", NAdd(NMul("10", tol), Delta(r, n, o, al, crit)))), n, o, al, crit)
        SameSel(x, y) == /\ SelS(x[1], ghs[x[1]][x[2]], ths[x[1]][x[3]]) = SelS(y[1], ghs[y[1]][y[2]], ths[y[1]][y[3]])
                         /\ SelB(x[1], ghs[x[1]][x[2]]) = SelB(y[1], ghs[y[1]][y[2]])
                         /\ (ev.op = "optimize_gh" \/ (ths[x[1]][x[3]] \in tclip /\ ths[x[1]][x[3]] = ths[y[1]][y[3]]))
        me == <<m0, g0, h0>>
    IN Clause("returned-cuts-are-those-of-the-efficiencies", cutsOK)
       \cup (IF ~cutsOK THEN {} ELSE
       Clause("returned-cuts-reproduce-the-row",
            /\ NClose(row.n_signal, NMul(Len(s0), r), "1e-9", "1e-300")
            /\ NClose(row.n_signal_weighted, NMul(Wt(s0), r), "1e-9", "1e-300")
            /\ isC(row.n_background, NMul(Len(b0), ratio))
            /\ isC(row.n_background_weighted, off)
            /\ \A p \in DOMAIN row.types : /\ isC(row.types[p], NMul(Len(OfType(b0, p)), ratio))
                                           /\ isC(row.wtypes[p], NMul(Wt(OfType(b0, p)), ratio)))
       \cup (IF NearBlind(ev.f, off) THEN {}
             ELSE IF NIsNan(r) \/ (r = "inf" /\ ev.f \in {"blind", "partial"})
             THEN (* no combination has a solution: the first one is returned *)
                  Clause("first-without-a-solution", me = <<1, 1, 1>> )
                  \cup Clause("nan-without-a-solution", IF NIsNan(r) THEN Blind(ev.f, off) ELSE NLe(Signal(on, off, al), NMul("1e-9", on)))
             ELSE IF Blind(ev.f, off) THEN {"nan-without-a-solution"}
             ELSE IF NIsFinite(off) /\ NGt(Signal(on, off, al), NMul("1e-12", on)) /\ NIsFinite(r)
             THEN LET d == NAdd(NMul("10", tol), Delta(r, on, off, al, crit)) IN
                  Clause("returned-cuts-reproduce-the-sensitivity",
                         /\ Meets(NMul(r, NAdd("1", d)), on, off, al, crit)
                         /\ ~Meets(NMul(r, NSub("1", d)), on, off, al, crit))
             ELSE IF NEq(Signal(on, off, al), "0") THEN Clause("no-signal-gives-infinity", r = "inf")
             ELSE Clause("returned-cuts-reproduce-the-sensitivity", NIsFinite(r)))
       \cup Clause("no-better-combination", \A x \in combos : x = me \/ ~Beats(x))
       \cup Clause("first-of-equals", (ev.dyadic /\ me \in combos) => \A x \in combos : Before(x, me) => ~SameSel(x, me)))

(* theta selection by a table that may have another energy binning: 0 selected, 1 not *)
ThetaFlag(v, e, tE, tcut) == IF Selected(v, e, tE, tcut, "le") THEN "0" ELSE "1"
In(x, unit, other) == IF unit = other THEN x ELSE NDiv(Phys(x, unit), UnitSize[other])

JOptimize(ev) ==
    IF ~Ok(ev.out) THEN {"unexpected-exception"} ELSE
    LET E == QV(ev.edges)  n == NBins(E)  gh == ev.op = "optimize_gh"
        se == PhysS(ev.sig.energy.v, ev.sig.energy.u)  be == PhysS(ev.bkg.energy.v, ev.bkg.energy.u)
        bo == PhysS(ev.bkg.offset.v, ev.bkg.offset.u)
        sbin == BinsOf(se, E)  bbin == BinsOf(be, E)
        tE == QV(ev.tedges)
        tC == IF gh THEN Ev([k \in 1..Len(ev.tcut.v) |-> In(ev.tcut.v[k], ev.tcut.u, ev.tu)]) ELSE <<>>
        tCenter == IF gh THEN Ev([k \in 1..NBins(tE) |-> Center(tE, k)]) ELSE <<>>
        S == Ev([k \in 1..Len(se) |->
               [gh |-> ev.sig.gh[k], th |-> IF gh THEN ThetaFlag(ev.sig.theta[k], se[k], tE, tC) ELSE ev.sig.theta[k],
                bin |-> sbin[k], mult |-> ev.sig.mult[k], w |-> ev.sig.weight[k], k |-> k]])
        B == Ev([k \in 1..Len(be) |-> [gh |-> ev.bkg.gh[k], off |-> bo[k], bin |-> bbin[k], mult |-> ev.bkg.mult[k], w |-> ev.bkg.weight[k],
                                      p |-> IF ev.bkg.ptype = <<>> THEN "" ELSE ev.bkg.ptype[k], k |-> k]])
        Sb == Ev([b \in 1..n |-> SelectSeq(S, LAMBDA e : e.bin = b)])
        Bb == Ev([b \in 1..n |-> SelectSeq(B, LAMBDA e : e.bin = b)])
        nm == Len(ev.mults)
        tmin == IF gh THEN "0" ELSE In(ev.tmin.v, ev.tmin.u, ev.tu)
        tmax == IF gh THEN "0" ELSE In(ev.tmax.v, ev.tmax.u, ev.tu)
        Theta(b) == IF gh THEN <<<<"0">>>>
                    ELSE [m \in 1..nm |->
                           LET s == SelectSeq(Sb[b], LAMBDA e : NGe(e.mult, ev.mults[m]))
                               vs == Ev([k \in 1..Len(s) |-> s[k].th])
                           IN [h \in 1..Len(ev.theff) |-> PCut(vs, ev.theff[h], tmax, tmin, tmax)]]
        (* cuts at the limits are exact, whatever event lies there *)
        thint(b) == IF gh THEN Interp(Center(E, b), tCenter, tC) ELSE "0"
    IN IF Len(ev.out.rows) # n THEN {"shape"}
       ELSE Clause("edges", \A b \in 1..n : /\ NClose(ev.out.rows[b].low, E[b], "1e-13", "0")
                                           /\ NClose(ev.out.rows[b].center, Center(E, b), "1e-13", "0")
                                           /\ NClose(ev.out.rows[b].high, E[b + 1], "1e-13", "0"))
            \cup Clause("edges-of-the-cuts", \A k \in DOMAIN ev.out.bins : LET T == ev.out.bins[k] IN
                   /\ Len(T.low) = n /\ Len(T.center) = n /\ Len(T.high) = n
                   /\ \A b \in 1..n : /\ NClose(T.low[b], E[b], "1e-13", "0")
                                      /\ NClose(T.center[b], Center(E, b), "1e-13", "0")
                                      /\ NClose(T.high[b], E[b + 1], "1e-13", "0"))
            \cup UNION {LET bad == BinProblem(ev, b, Sb[b], Bb[b], Ev(Theta(b)), thint(b), {tmin, tmax}) IN
                        {c \o " (bin " \o ToString(b) \o ")" : c \in bad} : b \in 1..n}

Event == Traces[t].ev[i + 1]
Judge(ev) ==
    CASE ev.op = "lima" -> JLiMa(ev)
      [] ev.op = "rel" -> JRel(ev)
      [] ev.op = "background" -> JBackground(ev)
      [] ev.op = "sens" -> JSens(ev)
      [] ev.op \in {"optimize_cuts", "optimize_gh"} -> JOptimize(ev)

Init == t \in DOMAIN Traces /\ i = 0
Next == /\ i < Len(Traces[t].ev)
        /\ i' = i + 1
        /\ t' = t
        /\ Report(Traces[t].id, i + 1, i + 1 = Len(Traces[t].ev), Judged(Event, Judge))
Spec == Init /\ [][Next]_vars
=============================================================================
