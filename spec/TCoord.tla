------------------------------- MODULE TCoord -------------------------------
(* Trace specification for field-of-view coordinates and solid angles.        *)
EXTENDS TraceLib, Coordinates

VARIABLES t, i
vars == <<t, i>>

Tol == "1e-12"
(* columns az/alt of the events against a centre (one value or one per event) *)
One(q, k) == IF Len(q.v) = 1 THEN Phys(q.v[1], q.u) ELSE Phys(q.v[k], q.u)
Dirs(ev) == LET n == IF Len(ev.lon.v) > Len(ev.lon0.v) THEN Len(ev.lon.v) ELSE Len(ev.lon0.v) IN
    Ev([k \in 1..n |-> InFrame(One(ev.lon, k), One(ev.lat, k), One(ev.lon0, k), One(ev.lat0, k))])
(* an angle of a direction at theta is known to tol / sin(theta) *)
PhiTol(d) == LET s == Hyp(d.y, d.z) IN IF NEq(s, "0") THEN "inf" ELSE NAdd(Tol, NDiv("1e-14", s))
LonTol(d) == LET s == Hyp(d.x, d.y) IN IF NEq(s, "0") THEN "inf" ELSE NAdd(Tol, NDiv("1e-14", s))

(* results in radian *)
JTheta(ev, th) ==
    LET D == Dirs(ev) IN
    IF Len(th) # Len(D) THEN {"shape"} ELSE
    Clause("great-circle-distance", \A k \in 1..Len(D) : NNonNeg(th[k]) /\ NClose(th[k], Separation(D[k]), "0", Tol))
JPhi(ev, ph) ==
    LET D == Dirs(ev) IN
    IF Len(ph) # Len(D) THEN {"shape"} ELSE
    Clause("phi-range", \A k \in 1..Len(D) : NNonNeg(ph[k]) /\ NLt(ph[k], TwoPi))
    \cup Clause("phi", \A k \in 1..Len(D) : AngClose(ph[k], FovPhi(D[k]), PhiTol(D[k])))
JLonLat(ev, lo, la) ==
    LET D == Dirs(ev) IN
    IF Len(lo) # Len(D) \/ Len(la) # Len(D) THEN {"shape"} ELSE
    Clause("longitude-range", \A k \in 1..Len(D) : NLe(NAbs(lo[k]), NAdd(NPi, Tol)))
    \cup Clause("longitude", \A k \in 1..Len(D) : AngClose(lo[k], FovLon(D[k]), LonTol(D[k])))
    \cup Clause("latitude", \A k \in 1..Len(D) : NClose(la[k], FovLat(D[k]), "0", IF NLt(Hyp(D[k].x, D[k].y), "1e-3") THEN "1e-7" ELSE Tol))
JCoord(ev) ==
    IF ev.what = "badunit" THEN Clause("not-an-angle-rejected", ev.out.k = "raise")
    ELSE IF ~Ok(ev.out) THEN {"unexpected-exception"}
    ELSE CASE ev.what = "theta"    -> JTheta(ev, ev.out.theta)
           [] ev.what = "thetaphi" -> JTheta(ev, ev.out.theta) \cup JPhi(ev, ev.out.phi)
           [] ev.what = "phi"      -> JPhi(ev, ev.out.phi)
           [] ev.what = "lonlat"   -> JLonLat(ev, ev.out.lon, ev.out.lat)

JCone(ev) ==
    IF ~Ok(ev.out) THEN {"unexpected-exception"} ELSE
    LET A == QV(ev.angle) IN
    Clause("cone-solid-angle", Len(ev.out.v) = Len(A) /\ \A k \in 1..Len(A) :
           NClose(ev.out.v[k], NMul(TwoPi, NVersin(A[k])), "1e-12", "1e-300"))
JRect(ev) ==
    IF ~Ok(ev.out) THEN {"unexpected-exception"} ELSE
    LET a == QV(ev.l1)  b == QV(ev.l2)  c == QV(ev.b1)  d == QV(ev.b2) IN
    Clause("rectangle-solid-angle", Len(ev.out.v) = Len(a) /\ \A k \in 1..Len(a) :
           NClose(ev.out.v[k], RectSolid(a[k], b[k], c[k], d[k]), "1e-12", "1e-14"))

Event == Traces[t].ev[i + 1]
Judge(ev) ==
    CASE ev.op = "coord" -> JCoord(ev)
      [] ev.op = "cone" -> JCone(ev)
      [] ev.op = "rect" -> JRect(ev)

Init == t \in DOMAIN Traces /\ i = 0
Next == /\ i < Len(Traces[t].ev)
        /\ i' = i + 1
        /\ t' = t
        /\ Report(Traces[t].id, i + 1, i + 1 = Len(Traces[t].ev), Judged(Event, Judge))
Spec == Init /\ [][Next]_vars
=============================================================================
