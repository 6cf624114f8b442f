------------------------------- MODULE Units -------------------------------
(***************************************************************************)
(* Units.  A quantity is a record [v |-> numbers, u |-> unit name]; its     *)
(* physical value is v times the size of the unit in the canonical unit of  *)
(* its dimension (TeV, rad, m, m2, s, sr).  Factors are exact.              *)
(***************************************************************************)
EXTENDS Num

eVinJ == "1.602176634e-19"

UnitSize == Ev(
  [ none   |-> "1",      one |-> "1",
    TeV    |-> "1",      GeV |-> "1e-3",  MeV |-> "1e-6",  PeV |-> "1e3",
    erg    |-> NDiv("1e-7", NMul(eVinJ, "1e12")),
    rad    |-> "1",      deg |-> NDiv(NPi, "180"), mrad |-> "1e-3",
    arcmin |-> NDiv(NPi, "10800"), arcsec |-> NDiv(NPi, "648000"),
    m      |-> "1",      km  |-> "1e3",   cm  |-> "1e-2",
    m2     |-> "1",      km2 |-> "1e6",   cm2 |-> "1e-4",
    s      |-> "1",      min |-> "60",    h   |-> "3600",  d |-> "86400", yr |-> "31557600",
    sr     |-> "1",      deg2 |-> NPow(NDiv(NPi, "180"), 2) ])

UnitDim ==
  [ none |-> "none", one |-> "one",
    TeV |-> "energy", GeV |-> "energy", MeV |-> "energy", PeV |-> "energy", erg |-> "energy",
    rad |-> "angle", deg |-> "angle", mrad |-> "angle", arcmin |-> "angle", arcsec |-> "angle",
    m |-> "length", km |-> "length", cm |-> "length",
    m2 |-> "area", km2 |-> "area", cm2 |-> "area",
    s |-> "time", min |-> "time", h |-> "time", d |-> "time", yr |-> "time",
    sr |-> "solidangle", deg2 |-> "solidangle" ]

(* physical (canonical) value of a scalar / a sequence *)
Phys(x, u)  == IF UnitSize[u] = "1" THEN x ELSE NMul(x, UnitSize[u])
PhysS(s, u) == IF UnitSize[u] = "1" THEN s ELSE SScale(s, UnitSize[u])
QV(q)       == IF q.u = "none" THEN q.v ELSE PhysS(q.v, q.u)
QX(q)       == Phys(q.v, q.u)         \* scalar quantity
SameUnit(p, q) == p.u = q.u
=============================================================================
