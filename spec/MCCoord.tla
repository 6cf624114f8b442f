------------------------------ MODULE MCCoord ------------------------------
(***************************************************************************)
(* A telescope slews and a source moves, in steps over a grid of directions *)
(* that includes the poles and full turns.                                  *)
(***************************************************************************)
EXTENDS Coordinates, Json
CONSTANTS LonStep, LatStep, Emit      \* degrees
Lons == {k * LonStep : k \in 0..(360 \div LonStep)}
Lats == {k * LatStep - 90 : k \in 0..(180 \div LatStep)}
VARIABLES src, tel
vars == <<src, tel>>
Init == src = <<0, 0>> /\ tel = <<0, 0>>
Slew == \E l \in Lons, b \in Lats : tel' = <<l, b>> /\ UNCHANGED src
Move == tel = <<0, 0>> /\ \E l \in Lons, b \in Lats : src' = <<l, b>> /\ UNCHANGED tel
Next == Slew \/ Move
Spec == Init /\ [][Next]_vars

R(x) == NDeg(x)
D == InFrame(R(src[1]), R(src[2]), R(tel[1]), R(tel[2]))
B == InFrame(R(tel[1]), R(tel[2]), R(src[1]), R(src[2]))
OnSphere == NClose(NAdd(NMul(D.x, D.x), NAdd(NMul(D.y, D.y), NMul(D.z, D.z))), "1", "1e-30", "0")
Symmetric == NClose(Separation(D), Separation(B), "0", "1e-18")
SamePlace == \/ src[2] = tel[2] /\ (src[1] - tel[1]) % 360 = 0
             \/ src[2] = tel[2] /\ src[2] \in {-90, 90}
ZeroIffEqual == SamePlace = NLe(Separation(D), "1e-18")
FullTurn == NClose(Separation(InFrame(R(src[1] + 360), R(src[2]), R(tel[1]), R(tel[2]))), Separation(D), "0", "1e-18")
(* both pairs of coordinates describe the same point *)
SamePoint == LET l == FovLon(D) b == FovLat(D) th == FovTheta(D) ph == FovPhi(D) IN
    /\ NClose(NCos(th), NMul(NCos(l), NCos(b)), "0", "1e-25")
    /\ NClose(NMul(NSin(th), NCos(ph)), NSin(b), "0", "1e-25")
    /\ NClose(NMul(NSin(th), NSin(ph)), NMul(NCos(b), NSin(l)), "0", "1e-25")
(* slewing along the meridian changes theta by the latitude difference *)
Meridian == (src[1] = tel[1]) => NClose(Separation(D), R(IF src[2] > tel[2] THEN src[2] - tel[2] ELSE tel[2] - src[2]), "0", "1e-18")
EmitBeh == Emit => PrintT("BEH|" \o ToJson([src |-> src, tel |-> tel]))
=============================================================================
