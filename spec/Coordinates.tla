---------------------------- MODULE Coordinates ----------------------------
(***************************************************************************)
(* Directions on the sphere and the field-of-view coordinates of            *)
(* pyirf.coordinates and pyirf.utils.  All angles in radian.                *)
(***************************************************************************)
EXTENDS Simulation

(* direction of (lon, lat) in the frame whose x axis points to (lon0, lat0),  *)
(* y towards increasing longitude, z towards increasing latitude              *)
InFrame(lon, lat, lon0, lat0) ==
    LET dl == NSub(lon, lon0)
        sb == NSin(lat) cb == NCos(lat) sb0 == NSin(lat0) cb0 == NCos(lat0)
        sd == NSin(dl)  cd == NCos(dl)
    IN Ev([x |-> NAdd(NMul(NMul(cb, cb0), cd), NMul(sb, sb0)),
           y |-> NMul(cb, sd),
           z |-> NSub(NMul(sb, cb0), NMul(NMul(cb, sb0), cd))])
Hyp(a, b) == NSqrt(NAdd(NMul(a, a), NMul(b, b)))

Separation(d) == NAtan2(Hyp(d.y, d.z), d.x)
PosAngle(d)   == NAtan2(d.y, d.z)                 \* from north through increasing longitude
OffsetLon(d)  == NAtan2(d.y, d.x)
OffsetLat(d)  == NAtan2(d.z, Hyp(d.x, d.y))

(* GADF: longitude against the offset frame, phi against the position angle *)
FovLon(d) == NNeg(OffsetLon(d))
FovLat(d) == OffsetLat(d)
FovTheta(d) == Separation(d)
FovPhi(d) == NNeg(PosAngle(d))                    \* modulo a full turn

TwoPi == NMul("2", NPi)
(* difference of two angles modulo full turns, in [-pi, pi] *)
AngDiff(a, b) ==
    LET d == NSub(a, b) IN NSub(d, NMul(TwoPi, NFloor(NAdd(NDiv(d, TwoPi), "0.5"))))
AngClose(a, b, tol) == NLe(NAbs(AngDiff(a, b)), tol)
=============================================================================
