----------------------------- MODULE Simulation -----------------------------
(***************************************************************************)
(* Simulated showers: energies follow a power law with index g <= -1        *)
(* between emin and emax, directions are uniform per solid angle between    *)
(* the opening angles vmin and vmax of the view cone, impact points uniform  *)
(* in a disk (pyirf.simulations, pyirf.spectral).                            *)
(*                                                                         *)
(* info = [n, emin, emax, index, impact, vmin, vmax], canonical units       *)
(***************************************************************************)
EXTENDS Binning

ClipTo(x, lo, hi) == NMin(NMax(x, lo), hi)

(* primitive of E^g *)
Prim(g, e) == IF NEq(g, "-1") THEN NLn(e) ELSE NDiv(NPow(e, NAdd(g, "1")), NAdd(g, "1"))
PowIntegral(g, a, b) == NSub(Prim(g, b), Prim(g, a))

(* share of the showers with a <= energy < b *)
EnergyShare(info, a, b) ==
    LET x == ClipTo(a, info.emin, info.emax)
        y == ClipTo(b, info.emin, info.emax)
    IN NDiv(PowIntegral(info.index, x, y), PowIntegral(info.index, info.emin, info.emax))

(* solid angle between two opening angles, in units of 2 pi *)
RingVersin(a, b) == NSub(NVersin(b), NVersin(a))
SolidRing(a, b) == NMul(NMul("2", NPi), RingVersin(a, b))
PointLike(info) == NEq(info.vmin, info.vmax)
FovShare(info, a, b) ==
    LET x == ClipTo(a, info.vmin, info.vmax)
        y == ClipTo(b, info.vmin, info.vmax)
    IN NDiv(RingVersin(x, y), RingVersin(info.vmin, info.vmax))

PerEnergy(info, E)  == Ev([b \in 1..NBins(E) |-> NMul(info.n, EnergyShare(info, E[b], E[b + 1]))])
PerFov(info, F)     == Ev([b \in 1..NBins(F) |-> NMul(info.n, FovShare(info, F[b], F[b + 1]))])
PosShare(P)         == Ev([b \in 1..NBins(P) |-> NDiv(NSub(P[b + 1], P[b]), NMul("2", NPi))])

(* longitude/latitude rectangle; the part inside the view cone is found by    *)
(* splitting it in sub x sub pixels and asking for each pixel centre          *)
RectSolid(l1, l2, b1, b2) == NMul(NSub(l2, l1), NSub(NSin(b2), NSin(b1)))
PixCos(lo, hi, sub) ==       \* cosines of the pixel centres of one edge interval
    Ev([k \in 1..sub |-> NCos(NAdd(lo, NMul(NSub(hi, lo), NDiv(2 * k - 1, 2 * sub))))])
InCone(c, info) == NLe(NCos(info.vmax), c) /\ NLe(c, NCos(info.vmin))
(* number of pixel centres inside, and number of those on the border to within rounding *)
PixCount(cl, cb, sub, cosmax, cosmin) ==
    LET P(j, k) == NMul(cl[j], cb[k])
        all == (1..sub) \X (1..sub)
        at(c, m) == NClose(c, m, "0", "1e-14")
    IN Ev([in |-> Cardinality({p \in all : LET c == P(p[1], p[2]) IN NLe(cosmax, c) /\ NLe(c, cosmin)}),
           edge |-> Cardinality({p \in all : LET c == P(p[1], p[2]) IN at(c, cosmax) \/ at(c, cosmin)})])

(* showers expected in each (longitude, latitude) cell, all energies: between  *)
(* lo and hi, the cells whose pixel centres lie on the border have lo < hi      *)
LonLatCells(info, L, B, sub) ==
    LET nl == NBins(L)  nb == NBins(B)
        cl == Ev([k \in 1..nl |-> PixCos(L[k], L[k + 1], sub)])
        cb == Ev([k \in 1..nb |-> PixCos(B[k], B[k + 1], sub)])
        dens == NDiv(info.n, SolidRing(info.vmin, info.vmax))
        cosmax == NCos(info.vmax)  cosmin == NCos(info.vmin)
        Cell(a, b) ==
            LET pc == PixCount(cl[a], cb[b], sub, cosmax, cosmin)
                full == NMul(dens, RectSolid(L[a], L[a + 1], B[b], B[b + 1]))
            IN [lo |-> NMul(full, NDiv(pc.in - pc.edge, sub * sub)), hi |-> NMul(full, NDiv(pc.in + pc.edge, sub * sub)),
                tol |-> NMul(NAdd("1e-9", NDiv("4e-15", NAdd("1e-30", RingVersin(info.vmin, info.vmax)))), full)]
    IN Ev([a \in 1..nl |-> [b \in 1..nb |-> Cell(a, b)]])

(*--- spectra ----------------------------------------------------------------*)
(* A spectrum is a record with a kind; fluxes in 1/(TeV s m2 [sr]).            *)
(* tables: sequences of energies (sorted) and fluxes, interpolated piecewise   *)
(* linearly, the outermost segments continue                                   *)
Segment(x, xs) ==
    LET n == Len(xs) IN
    IF NLt(x, xs[2]) \/ n = 2 THEN 1
    ELSE IF NGe(x, xs[n - 1]) THEN n - 1
    ELSE CHOOSE j \in 1..(n - 1) : NLe(xs[j], x) /\ NLt(x, xs[j + 1])
Affine(x, xs, ys) ==
    LET j == Segment(x, xs) IN
    NAdd(ys[j], NMul(NDiv(NSub(x, xs[j]), NSub(xs[j + 1], xs[j])), NSub(ys[j + 1], ys[j])))

Gauss(x, m, s) == NExp(NMul("-0.5", NPow(NDiv(NSub(x, m), s), 2)))
Flux(s, e) ==
    LET r == NDiv(e, s.eref) IN
    CASE s.kind = "powerlaw"    -> NMul(s.norm, NPow(r, s.index))
      [] s.kind = "logparabola" -> NMul(s.norm, NPow(r, NAdd(s.a, NMul(s.b, NLog10(r)))))
      [] s.kind = "bump"        -> NMul(NMul(s.norm, NPow(r, s.index)),
                                        NAdd("1", NMul(s.f, NSub(NExp(Gauss(NLog10(r), s.mu, s.sigma)), "1"))))
      [] s.kind = "table"       ->
           LET x == IF s.loge THEN NLog10(r) ELSE r
               xs == IF s.loge THEN SMap(NLog10, s.xs) ELSE s.xs     \* xs in units of eref
               ys == IF s.logf THEN SMap(NLog10, s.ys) ELSE s.ys
               y == Affine(x, xs, ys)
           IN IF s.logf THEN NPow("10", y) ELSE y

(* number of particles of a power law with the given normalisation arriving    *)
(* within area, time and solid angle between two energies                      *)
Arrivals(norm, eref, g, emin, emax, area, time, omega) ==
    NMul(NMul(NMul(NMul(norm, area), time), omega), NDiv(PowIntegral(g, emin, emax), NPow(eref, g)))
=============================================================================
