------------------------------- MODULE TChain -------------------------------
(***************************************************************************)
(* Trace specification for whole analysis chains: productions are weighted  *)
(* and given coordinates, cut tables are applied, every IRF is computed,     *)
(* written to a FITS file and read back.  The state holds the events and the *)
(* cuts; each table read is folded with what was simulated and compared with *)
(* the events that pass the cuts.                                           *)
(***************************************************************************)
EXTENDS TraceLib, Chain, Coordinates

VARIABLES t, i, S
vars == <<t, i, S>>

Col(ev, c) == PhysS(ev.cols[c], ev.cu[c])
Build(ev) ==
    LET e == Col(ev, "e")  r == Col(ev, "r")  o == Col(ev, "o")  p == Col(ev, "p")  th == Col(ev, "th")
        lon == Col(ev, "lon")  lat == Col(ev, "lat") IN
    Ev([info |-> Info(ev.info), target |-> ev.target, obstime |-> QX(ev.obstime),
        rows |-> [k \in 1..Len(e) |-> [e |-> e[k], r |-> r[k], o |-> o[k], p |-> p[k], th |-> th[k], lon |-> lon[k], lat |-> lat[k],
                                       gh |-> ev.cols["gh"][k], w |-> ev.cols["w"][k]]]])

(*--- simulate: the columns the chain added -----------------------------------*)
Omega(info) == IF PointLike(info) THEN "1" ELSE SolidRing(info.vmin, info.vmax)
(* flux of the simulation: as many arrivals as were simulated *)
SimFlux(info, obstime, e) ==
    NDiv(NMul(info.n, NPow(e, info.index)), Arrivals("1", "1", info.index, info.emin, info.emax, Area(info), obstime, Omega(info)))
JSimulate(ev) ==
    IF ~Ok(ev.out) THEN {"unexpected-exception"}
    ELSE LET B == Build(ev)
             az == Col(ev, "taz")  alt == Col(ev, "talt")  raz == Col(ev, "raz")  ralt == Col(ev, "ralt")
             paz == Col(ev, "paz")  palt == Col(ev, "palt")
             N == 1..Len(B.rows) IN
         Clause("weights", \A k \in N : NClose(B.rows[k].w, NDiv(Flux(B.target, B.rows[k].e), SimFlux(B.info, B.obstime, B.rows[k].e)), "1e-10", "0"))
         \cup Clause("true-offset", \A k \in N : NClose(B.rows[k].o, Separation(InFrame(az[k], alt[k], paz[k], palt[k])), "1e-12", "1e-11"))
         \cup Clause("reconstructed-offset", \A k \in N : NClose(B.rows[k].p, Separation(InFrame(raz[k], ralt[k], paz[k], palt[k])), "1e-12", "1e-11"))
         \cup Clause("theta", \A k \in N : NClose(B.rows[k].th, Separation(InFrame(raz[k], ralt[k], az[k], alt[k])), "1e-12", "1e-11"))
         \cup Clause("field-of-view-coordinates", \A k \in N :
                 LET d == InFrame(raz[k], ralt[k], paz[k], palt[k]) IN
                 AngClose(B.rows[k].lon, FovLon(d), "1e-11") /\ NClose(B.rows[k].lat, FovLat(d), "1e-12", "1e-11"))

(*--- cuts ---------------------------------------------------------------------*)
CutsOf(ev) == Ev([edges |-> QV(ev.gh.edges), gh |-> ev.gh.cut, tedges |-> QV(ev.th.edges), th |-> QV(ev.th.cut)])
JCuts(ev) ==
    IF ~Ok(ev.out) THEN {"unexpected-exception"}
    ELSE LET c == CutsOf(ev) G == S.gamma.rows  B == S.background.rows IN
         Clause("gammas-selected", \A k \in 1..Len(G) : ev.out.gh[k] = Passes(G[k], c, FALSE) /\ ev.out.both[k] = Passes(G[k], c, TRUE))
         \cup Clause("background-selected", \A k \in 1..Len(B) : ev.out.bkg[k] = Passes(B[k], c, FALSE))

(*--- IRFs read from the file ---------------------------------------------------*)
Names == [aeff |-> <<"energy_true", "offset">>, edisp |-> <<"energy_true", "migra", "offset">>, psf |-> <<"energy_true", "offset", "rad">>,
          bkg2d |-> <<"energy", "offset">>, bkg3d |-> <<"energy", "fov_lon", "fov_lat">>, radmax |-> <<"energy", "offset">>]
Coord(kind, x) ==
    CASE kind = "aeff" -> <<x.e, x.o>> [] kind = "edisp" -> <<x.e, NDiv(x.r, x.e), x.o>> [] kind = "psf" -> <<x.e, x.o, x.th>>
      [] kind = "bkg2d" -> <<x.r, x.p>> [] kind = "bkg3d" -> <<x.r, x.lon, x.lat>> [] OTHER -> <<x.r, x.p>>
Sum3(s) == IF s = <<>> THEN "0" ELSE NSum(s)
JTable(ev, A, v) ==
    LET G == S.gamma  info == G.info
        bkg == ev.kind \in {"bkg2d", "bkg3d"}
        src == IF bkg THEN S.background ELSE G
        sel == Survivors(src.rows, S.cuts, ev.kind \in {"aeff", "edisp"} /\ ev.point)
        T == TallyOf(sel, A, LAMBDA x : Coord(ev.kind, x))
        D == Dims(A) IN
    CASE ev.kind = "aeff" ->
           (* one offset bin for a production at one offset, else offset bins of a diffuse one *)
           LET pe == PerEnergy(info, A[1])
               share(b) == IF ev.perfov THEN NDiv(PerFov(info, A[2])[b], info.n) ELSE "1"
               tol == IF ev.perfov THEN NMul(info.n, FovTol(info)) ELSE NMul(info.n, "1e-13")
               n(a, b) == IF ev.perfov THEN T.n[Flat(<<a, b>>, D, 1)] ELSE Cardinality({k \in 1..Len(sel) : HistBinOf(sel[k].e, A[1]) = a})
               w(a, b) == IF ev.perfov THEN T.w[Flat(<<a, b>>, D, 1)]
                          ELSE NSumOver({k \in 1..Len(sel) : HistBinOf(sel[k].e, A[1]) = a}, LAMBDA k : sel[k].w)
               omega(b) == IF PointLike(info) THEN "1" ELSE IF ~ev.perfov THEN Omega(info) ELSE
                           LET x == ClipTo(A[2][b], info.vmin, info.vmax)  y == ClipTo(A[2][b + 1], info.vmin, info.vmax) IN SolidRing(x, y)
               elo(a) == ClipTo(A[1][a], info.emin, info.emax)  ehi(a) == ClipTo(A[1][a + 1], info.emin, info.emax)
           IN Clause("area-folds-to-the-selected-events", \A a \in 1..D[1], b \in 1..D[2] :
                   EffOK(v[Flat(<<a, b>>, D, 1)], n(a, b), NMul(pe[a], share(b)), tol, Area(info)))
              \cup (IF ~NEq(G.target.index, info.index) THEN {} ELSE
                    Clause("target-spectrum-folds-to-the-weights", \A a \in 1..D[1], b \in 1..D[2] :
                       LET nsim == NMul(pe[a], share(b)) IN
                       NLe(nsim, NMul(tol, "1e6")) \/
                       NClose(NMul(v[Flat(<<a, b>>, D, 1)], Arrivals(G.target.norm, G.target.eref, info.index, elo(a), ehi(a), "1", G.obstime, omega(b))),
                              w(a, b), NAdd("1e-8", NMul("10", NDiv(tol, nsim))), "0")))
      [] ev.kind = "edisp" ->
           Clause("dispersion-folds-to-the-selected-events", \A a \in 1..D[1], m \in 1..D[2], f \in 1..D[3] :
               LET n == Over2(T, a, f) IN NClose(NMul(v[C3(T, a, m, f)], Width(A[2], m)), Part(N3(T, a, m, f), n), "1e-9", "0"))
      [] ev.kind = "psf" ->
           Clause("psf-folds-to-the-selected-events", \A a \in 1..D[1], f \in 1..D[2], s \in 1..D[3] :
               LET n == Over3(T, a, f) IN
               NClose(NMul(v[C3(T, a, f, s)], SolidRing(A[3][s], A[3][s + 1])), Part(N3(T, a, f, s), n), RingTol(A[3][s], A[3][s + 1]), "0"))
      [] ev.kind = "bkg2d" ->
           Clause("background-folds-to-the-weights", \A a \in 1..D[1], b \in 1..D[2] :
               LET c == Flat(<<a, b>>, D, 1) IN
               NClose(NMul(NMul(v[c], Width(A[1], a)), NMul(src.obstime, SolidRing(A[2][b], A[2][b + 1]))), T.w[c], RingTol(A[2][b], A[2][b + 1]), "0"))
      [] ev.kind = "bkg3d" ->
           Clause("background-folds-to-the-weights", \A a \in 1..D[1], b \in 1..D[2], l \in 1..D[3] :
               LET c == C3(T, a, b, l) IN
               NClose(NMul(NMul(v[c], Width(A[1], a)), NMul(src.obstime, RectSolid(A[2][b], A[2][b + 1], A[3][l], A[3][l + 1]))), T.w[c],
                      RectTol(A[3][l], A[3][l + 1]), "0"))
      [] ev.kind = "radmax" ->
           Clause("rad-max-is-the-cut-applied", \A a \in 1..D[1], b \in 1..D[2] : NClose(v[Flat(<<a, b>>, D, 1)], S.cuts.th[a], "1e-12", "0"))

JIrf(ev) ==
    IF ~Ok(ev.out) THEN {"unexpected-exception"}
    ELSE LET A == [k \in 1..Len(ev.axes) |-> QV(ev.axes[k])]
             o == ev.out
             full == ev.kind \in {"psf", "bkg2d", "bkg3d"} \/ (ev.kind # "radmax" /\ ~ev.point) IN
         IF o.names # Names[ev.kind] \/ Len(o.axes) # Len(A) THEN {"axes"}
         ELSE IF o.shape # [k \in 1..Len(A) |-> NBins(A[k])] \/ Len(o.v) # NCells(A) THEN {"shape"}
         ELSE Clause("edges", \A k \in 1..Len(A) : SClose(QV(o.axes[k]), A[k], "1e-12", "1e-300"))
              \cup Clause("enclosure", o.pointlike = ~full)
              \cup JTable(ev, A, o.v)

Event == Traces[t].ev[i + 1]
Judge(ev) ==
    CASE ev.op = "simulate" -> JSimulate(ev)
      [] ev.op = "cuts" -> JCuts(ev)
      [] ev.op = "irf" -> JIrf(ev)

Init == t \in DOMAIN Traces /\ i = 0 /\ S = [gamma |-> <<>>, background |-> <<>>, cuts |-> <<>>]
Next == /\ i < Len(Traces[t].ev)
        /\ i' = i + 1
        /\ t' = t
        /\ S' = IF Event.op = "simulate" /\ Ok(Event.out) THEN [S EXCEPT ![Event.which] = Build(Event)]
                ELSE IF Event.op = "cuts" THEN [S EXCEPT !.cuts = CutsOf(Event)] ELSE S
        /\ Report(Traces[t].id, i + 1, i + 1 = Len(Traces[t].ev), Judged(Event, Judge))
Spec == Init /\ [][Next]_vars
=============================================================================
