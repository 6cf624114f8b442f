------------------------------ MODULE MCExport ------------------------------
(***************************************************************************)
(* A file to which HDUs are appended, replaced and read.                    *)
(***************************************************************************)
EXTENDS Export, Json
CONSTANTS MaxOps, Emit
Names == {"A", "B"}
Shapes == {<<1, 2, 3>>, <<3, 2, 1>>}
VARIABLES file, hist
vars == <<file, hist>>
None == [kind |-> "none"]
Init == file = [n \in Names |-> None] /\ hist = <<>>
Shape(k, s) == SubSeq(s, 1, Len(Table[k].axes))
(* the stream written for an array that holds its own cell numbers *)
Stream(d) == [p \in 1..Prod(d) |-> CHOOSE x \in Cells(d) : FitsPos(x, d, 1) = p - 1]
Create == \E n \in Names, k \in Kinds, s \in Shapes, pl \in BOOLEAN :
    /\ Len(hist) < MaxOps
    /\ pl \/ Table[k].enclosure = "choice"
    /\ file' = [file EXCEPT ![n] = [kind |-> k, shape |-> Shape(k, s), enc |-> Enclosure(k, pl), stream |-> Stream(Shape(k, s))]]
    /\ hist' = Append(hist, [name |-> n, kind |-> k, shape |-> Shape(k, s), pl |-> pl])
Next == Create
Spec == Init /\ [][Next]_vars

Used == {n \in Names : file[n].kind # "none"}
(* every cell has exactly one place *)
OnePlacePerCell == \A n \in Used : LET d == file[n].shape IN
    {FitsPos(x, d, 1) : x \in Cells(d)} = 0..(Prod(d) - 1)
(* reading the stream at the position of a cell gives that cell back *)
RoundTrip == \A n \in Used : LET d == file[n].shape IN
    \A x \in Cells(d) : file[n].stream[FitsPos(x, d, 1) + 1] = x
(* the FITS stream of the table is the row-major stream with reversed axes *)
Reversed == \A n \in Used : LET d == file[n].shape  r == Reverse(d) IN
    \A x \in Cells(d) : FitsPos(x, d, 1) = RowPos(Reverse(x), r, Len(r))
Classified == \A n \in Used : file[n].enc \in {"POINT-LIKE", "FULL-ENCLOSURE"}
(* energies in TeV, a unit per axis, the data unit of a known dimension *)
WellFormed == \A k \in Kinds :
    /\ \A i \in 1..Len(Table[k].axes) : AxisDim[Table[k].axes[i]] = UnitDim[AxisUnit[Table[k].axes[i]]]
    /\ NPos(USize(Table[k].unit))
    /\ \A j \in Kinds : (Table[j].c4 = Table[k].c4) => j = k
LastWins == hist # <<>> => LET h == hist[Len(hist)] IN file[h.name].kind = h.kind /\ file[h.name].shape = h.shape
EmitBeh == (Emit /\ hist # <<>>) => PrintT("BEH|" \o ToJson([ops |-> hist]))
=============================================================================
