-------------------------------- MODULE TSim --------------------------------
(* Trace specification for pyirf.simulations and pyirf.spectral.              *)
EXTENDS TraceLib, Simulation

VARIABLES t, i
vars == <<t, i>>

Info(r) == [n |-> r.n, emin |-> QX(r.emin), emax |-> QX(r.emax), index |-> r.index, impact |-> QX(r.impact),
            vmin |-> QX(r.vmin), vmax |-> QX(r.vmax)]
(* cosine differences of doubles *)
FovTol(info) == NAdd("1e-10", NDiv("1e-15", RingVersin(info.vmin, info.vmax)))
ERow(x, y, info) == Len(x) = Len(y) /\ \A b \in 1..Len(x) : NClose(x[b], y[b], "1e-9", NMul(info.n, "1e-13"))
FRow(x, y, info) == Len(x) = Len(y) /\ \A b \in 1..Len(x) : NClose(x[b], y[b], "1e-9", NMul(info.n, FovTol(info)))

JPerEnergy(ev) ==
    IF ~Ok(ev.out) THEN {"unexpected-exception"} ELSE
    LET info == Ev(Info(ev.info)) IN Clause("showers-per-energy-bin", ERow(ev.out.n, PerEnergy(info, QV(ev.e)), info))
JPerFov(ev) ==
    LET info == Ev(Info(ev.info)) IN
    IF PointLike(info) THEN Clause("point-like-raises-ValueError", Raised(ev.out, {"ValueError"}))
    ELSE IF ~Ok(ev.out) THEN {"unexpected-exception"}
    ELSE Clause("showers-per-offset-bin", FRow(ev.out.n, PerFov(info, QV(ev.f)), info))
JPerEnergyFov(ev) ==
    LET info == Ev(Info(ev.info)) IN
    IF PointLike(info) THEN Clause("point-like-raises-ValueError", Raised(ev.out, {"ValueError"}))
    ELSE IF ~Ok(ev.out) THEN {"unexpected-exception"} ELSE
    LET pe == PerEnergy(info, QV(ev.e))  pf == PerFov(info, QV(ev.f)) IN
    IF Len(ev.out.n) # Len(pe) THEN {"shape"} ELSE
    Clause("showers-per-energy-and-offset-bin",
           \A a \in 1..Len(pe) : FRow(ev.out.n[a], SScale(pf, NDiv(pe[a], info.n)), info))
JPolar(ev) ==
    LET info == Ev(Info(ev.info)) IN
    IF PointLike(info) THEN Clause("point-like-raises-ValueError", Raised(ev.out, {"ValueError"}))
    ELSE IF ~Ok(ev.out) THEN {"unexpected-exception"} ELSE
    LET pe == PerEnergy(info, QV(ev.e))  pf == PerFov(info, QV(ev.f))  pp == PosShare(QV(ev.p)) IN
    IF Len(ev.out.n) # Len(pe) \/ \E a \in 1..Len(ev.out.n) : Len(ev.out.n[a]) # Len(pf) THEN {"shape"} ELSE
    Clause("showers-per-energy-offset-position-angle-bin",
           \A a \in 1..Len(pe), b \in 1..Len(pf) :
              FRow(ev.out.n[a][b], SScale(pp, NMul(pf[b], NDiv(pe[a], info.n))), info))
JLonLat(ev) ==
    LET info == Ev(Info(ev.info)) IN
    IF ~Ok(ev.out) THEN {"unexpected-exception"} ELSE
    LET pe == PerEnergy(info, QV(ev.e))  L == QV(ev.lon)  B == QV(ev.lat)  sub == ev.sub
        nl == NBins(L)  nb == NBins(B)
        cells == LonLatCells(info, L, B, sub)
        (* rounding of the energy share: absolute 1e-13 *)
        OK(x, a, b, s) ==
            LET c == cells[a][b]
                tol == NAdd(NMul(c.tol, s), NMul(c.hi, "1e-13"))
            IN NLe(NSub(NMul(c.lo, s), tol), x) /\ NLe(x, NAdd(NMul(c.hi, s), tol))
    IN IF Len(ev.out.n) # Len(pe) \/ \E a \in 1..Len(ev.out.n) : Len(ev.out.n[a]) # nl \/ \E k \in 1..nl : Len(ev.out.n[a][k]) # nb THEN {"shape"}
       ELSE Clause("showers-per-energy-longitude-latitude-bin",
                   \A e \in 1..Len(pe), a \in 1..nl, b \in 1..nb : OK(ev.out.n[e][a][b], a, b, NDiv(pe[e], info.n)))
JNewInfo(ev) ==
    IF NGt(ev.index, "-1") THEN Clause("index-above--1-raises-ValueError", Raised(ev.out, {"ValueError"}))
    ELSE Clause("unexpected-exception", Ok(ev.out))

(*--- spectra -------------------------------------------------------------------*)
FluxUnit(f) == NMul(NMul(UnitSize[f.e], UnitSize[f.a]), NMul(UnitSize[f.t], IF f.s = "none" THEN "1" ELSE UnitSize[f.s]))
PhysFlux(x, f) == NDiv(x, FluxUnit(f))
Spectrum(r) ==
    LET eref == QX(r.eref)  norm == PhysFlux(r.norm, r.fu) IN
    CASE r.kind = "powerlaw" -> [kind |-> "powerlaw", eref |-> eref, norm |-> norm, index |-> r.index]
      [] r.kind = "logparabola" -> [kind |-> "logparabola", eref |-> eref, norm |-> norm, a |-> r.a, b |-> r.b]
      [] r.kind = "bump" -> [kind |-> "bump", eref |-> eref, norm |-> norm, index |-> r.index, f |-> r.f, mu |-> r.mu, sigma |-> r.sigma]
      [] r.kind = "table" -> [kind |-> "table", eref |-> eref, loge |-> r.loge, logf |-> r.logf,
                              xs |-> Ev(LET x == QV(r.energy) IN [k \in 1..Len(x) |-> NDiv(x[k], eref)]),
                              ys |-> Ev([k \in 1..Len(r.flux) |-> PhysFlux(r.flux[k], r.fu)])]
(* table interpolation in linear flux may cross zero: tolerance relative to the table *)
FluxAtol(s) == IF s.kind = "table" /\ ~s.logf THEN NMul("1e-11", NMaxOf(SMap(NAbs, s.ys))) ELSE "0"
Diffuse(r) == r.fu.s # "none"

JFlux(ev) ==
    IF ~Ok(ev.out) THEN {"unexpected-exception"} ELSE
    LET s == Ev(Spectrum(ev.spec))  e == QV(ev.energy)
        far(x) == IF s.kind = "table" THEN NAdd("1", NAbs(x)) ELSE "1"
    IN Clause("flux-formula", Len(ev.out.flux) = Len(e)
              /\ \A k \in 1..Len(e) : NClose(ev.out.flux[k], Flux(s, e[k]), "1e-9",
                     IF s.kind = "table" /\ ~s.logf THEN NMul(FluxAtol(s), NAdd("1", NDiv(e[k], s.eref))) ELSE "0"))
       \cup (IF s.kind = "table" THEN
             Clause("table-points-reproduced", \A k \in 1..Len(e) : \A j \in 1..Len(s.xs) :
                 NClose(NDiv(e[k], s.eref), s.xs[j], "1e-14", "0") => NClose(ev.out.flux[k], s.ys[j], "1e-9", FluxAtol(s))) ELSE {})
JNewSpectrum(ev) == Clause("positive-index-raises-ValueError", NGt(ev.index, "0") => Raised(ev.out, {"ValueError"}))

JFromSim(ev) ==
    IF ~Ok(ev.out) THEN {"unexpected-exception"} ELSE
    LET info == Ev(Info(ev.info))
        area == NMul(NPi, NPow(info.impact, 2))
        om == IF PointLike(info) THEN "1" ELSE SolidRing(info.vmin, info.vmax)
        tol == IF PointLike(info) THEN "1e-10" ELSE NAdd("1e-10", FovTol(info))
    IN Clause("flux-kind", ev.out.diffuse = ~PointLike(info))
       \cup Clause("index", NEq(ev.out.index, info.index))
       \cup Clause("reference-energy", NClose(ev.out.eref, QX(ev.eref), "1e-13", "0"))
       \cup Clause("integrates-to-the-number-of-showers",
            NClose(Arrivals(ev.out.norm, ev.out.eref, info.index, info.emin, info.emax, area, QX(ev.time), om), info.n, NMul("10", tol), "0"))

JWeights(ev) ==
    IF Diffuse(ev.target) # Diffuse(ev.sim) THEN Clause("incompatible-fluxes-rejected", ev.out.k = "raise")
    ELSE IF ~Ok(ev.out) THEN {"unexpected-exception"} ELSE
    LET a == Ev(Spectrum(ev.target))  b == Ev(Spectrum(ev.sim))  e == QV(ev.energy) IN
    Clause("weight-is-the-flux-ratio", Len(ev.out.w) = Len(e)
           /\ \A k \in 1..Len(e) : NClose(ev.out.w[k], NDiv(Flux(a, e[k]), Flux(b, e[k])), "1e-8", "0"))
    \cup (IF ev.target = ev.sim THEN Clause("same-spectrum-gives-one", \A k \in 1..Len(ev.out.w) : NEq(ev.out.w[k], "1")) ELSE {})

JCone(ev) ==
    IF ~Diffuse(ev.spec) THEN Clause("point-source-cone-raises-ValueError", Raised(ev.out, {"ValueError"}))
    ELSE IF ~Ok(ev.out) THEN {"unexpected-exception"} ELSE
    LET s == Ev(Spectrum(ev.spec))  e == QV(ev.energy)
        in == QX(ev.inner)  outer == QX(ev.outer)
        om == SolidRing(in, outer)
        tol == NAdd("1e-9", NDiv("1e-15", RingVersin(in, outer)))
    IN Clause("cone-integral", Len(ev.out.flux) = Len(e)
              /\ \A k \in 1..Len(e) : NClose(ev.out.flux[k], NMul(om, Flux(s, e[k])), tol, "0"))
       \cup Clause("spectrum-unchanged", SClose(ev.out.before, ev.out.after, "0", "0"))

Event == Traces[t].ev[i + 1]
Judge(ev) ==
    CASE ev.op = "per_energy" -> JPerEnergy(ev)
      [] ev.op = "per_fov" -> JPerFov(ev)
      [] ev.op = "per_energy_fov" -> JPerEnergyFov(ev)
      [] ev.op = "polar" -> JPolar(ev)
      [] ev.op = "lonlat" -> JLonLat(ev)
      [] ev.op = "new_info" -> JNewInfo(ev)
      [] ev.op = "flux" -> JFlux(ev)
      [] ev.op = "new_spectrum" -> JNewSpectrum(ev)
      [] ev.op = "from_simulation" -> JFromSim(ev)
      [] ev.op = "weights" -> JWeights(ev)
      [] ev.op = "cone" -> JCone(ev)

Init == t \in DOMAIN Traces /\ i = 0
Next == /\ i < Len(Traces[t].ev)
        /\ i' = i + 1
        /\ t' = t
        /\ Report(Traces[t].id, i + 1, i + 1 = Len(Traces[t].ev), Judged(Event, Judge))
Spec == Init /\ [][Next]_vars
=============================================================================
