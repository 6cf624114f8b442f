------------------------------- MODULE Export -------------------------------
(***************************************************************************)
(* GADF files: a file is a function from extension names to HDUs.  An HDU   *)
(* describes one IRF table: axes given by pairs of edge columns, a data     *)
(* column whose FITS dimensions are the axes in the order named by its CREF *)
(* card (the first one varies fastest), and classification cards.           *)
(***************************************************************************)
EXTENDS Units

Kinds == {"aeff2d", "psf", "edisp", "bkg2d", "bkg3d", "radmax"}
Table == [
  aeff2d |-> [axes |-> <<"ENERG", "THETA">>,          data |-> "EFFAREA", unit |-> <<<<"m2", 1>>>>,
              c2 |-> "EFF_AREA", c4 |-> "AEFF_2D",   name |-> "EFFECTIVE AREA", enclosure |-> "choice"],
  psf    |-> [axes |-> <<"ENERG", "THETA", "RAD">>,   data |-> "RPSF",    unit |-> <<<<"sr", -1>>>>,
              c2 |-> "PSF",      c4 |-> "PSF_TABLE", name |-> "PSF",            enclosure |-> "FULL-ENCLOSURE"],
  edisp  |-> [axes |-> <<"ENERG", "MIGRA", "THETA">>, data |-> "MATRIX",  unit |-> <<>>,
              c2 |-> "EDISP",    c4 |-> "EDISP_2D",  name |-> "EDISP",          enclosure |-> "choice"],
  bkg2d  |-> [axes |-> <<"ENERG", "THETA">>,          data |-> "BKG",     unit |-> <<<<"MeV", -1>>, <<"s", -1>>, <<"sr", -1>>>>,
              c2 |-> "BKG",      c4 |-> "BKG_2D",    name |-> "BACKGROUND",     enclosure |-> "FULL-ENCLOSURE"],
  bkg3d  |-> [axes |-> <<"ENERG", "DETX", "DETY">>,   data |-> "BKG",     unit |-> <<<<"MeV", -1>>, <<"s", -1>>, <<"sr", -1>>>>,
              c2 |-> "BKG",      c4 |-> "BKG_3D",    name |-> "BACKGROUND",     enclosure |-> "FULL-ENCLOSURE"],
  radmax |-> [axes |-> <<"ENERG", "THETA">>,          data |-> "RAD_MAX", unit |-> <<<<"deg", 1>>>>,
              c2 |-> "RAD_MAX",  c4 |-> "RAD_MAX_2D", name |-> "RAD_MAX",       enclosure |-> "POINT-LIKE"] ]

AxisUnit == [ENERG |-> "TeV", THETA |-> "deg", RAD |-> "deg", DETX |-> "deg", DETY |-> "deg", MIGRA |-> "one"]
AxisDim  == [ENERG |-> "energy", THETA |-> "angle", RAD |-> "angle", DETX |-> "angle", DETY |-> "angle", MIGRA |-> "one"]

Enclosure(kind, pointlike) ==
    IF Table[kind].enclosure # "choice" THEN Table[kind].enclosure
    ELSE IF pointlike THEN "POINT-LIKE" ELSE "FULL-ENCLOSURE"

(* the CREF card: the edge columns of the axes, in order *)
RECURSIVE Refs(_)
Refs(a) == IF Len(a) = 1 THEN a[1] \o "_LO:" \o a[1] \o "_HI"
           ELSE a[1] \o "_LO:" \o a[1] \o "_HI," \o Refs(Tail(a))
Cref(kind) == "(" \o Refs(Table[kind].axes) \o ")"

(* size of a product of powers of units in canonical units, and its dimension *)
RECURSIVE USize(_)
USize(us) == IF us = <<>> THEN "1" ELSE NMul(NPow(UnitSize[us[1][1]], us[1][2]), USize(Tail(us)))
RECURSIVE UDims(_)
UDims(us) == IF us = <<>> THEN {} ELSE {<<UnitDim[us[1][1]], us[1][2]>>} \cup UDims(Tail(us))

(* Position (from 0) in the data stream of a FITS column of the cell whose     *)
(* index along the axes (in CREF order, from 1) is x, for axis lengths d: the  *)
(* first axis varies fastest.                                                  *)
RECURSIVE FitsPos(_, _, _)
FitsPos(x, d, k) == IF k > Len(d) THEN 0 ELSE (x[k] - 1) + d[k] * FitsPos(x, d, k + 1)
(* position in the row-major stream of an array indexed by the axes in order *)
RECURSIVE RowPos(_, _, _)
RowPos(x, d, k) == IF k = 0 THEN 0 ELSE (x[k] - 1) + d[k] * RowPos(x, d, k - 1)

RECURSIVE Prod(_)
Prod(d) == IF d = <<>> THEN 1 ELSE d[1] * Prod(Tail(d))
Cells(d) == IF Len(d) = 2 THEN {<<a, b>> : a \in 1..d[1], b \in 1..d[2]}
            ELSE {<<a, b, c>> : a \in 1..d[1], b \in 1..d[2], c \in 1..d[3]}
=============================================================================
