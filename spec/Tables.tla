------------------------------- MODULE Tables -------------------------------
(***************************************************************************)
(* Validation of tables, comparison of binnings, and the EventDisplay file. *)
(***************************************************************************)
EXTENDS Units

(* A table is a function from column names to units, "none" for a plain column *)
DimOf(u) == IF u = "none" THEN "one" ELSE UnitDim[u]
Absent(cols, req)    == req \ DOMAIN cols
Wrong(cols, units)   == {c \in DOMAIN units \cap DOMAIN cols : DimOf(cols[c]) # DimOf(units[c])}
Satisfied(cols, req, units) == Absent(cols, req \cup DOMAIN units) = {} /\ Wrong(cols, units) = {}

(* outcome [k, type, names]: names are the columns the error talks about     *)
CheckAllowed(cols, req, units, o) ==
    IF Satisfied(cols, req, units) THEN o.k = "ok"
    ELSE /\ o.k = "raise"
         /\ CASE o.type = "MissingColumns"  -> /\ o.names # {}
                                               /\ o.names \subseteq Absent(cols, req \cup DOMAIN units)
                                               /\ Absent(cols, req) \subseteq o.names
              [] o.type = "WrongColumnUnit" -> \E c \in Wrong(cols, units) : o.names = {c}
              [] OTHER -> FALSE

(* Two binnings: low, center and high edges, each a quantity                *)
SameColumn(p, q) == DimOf(p.u) = DimOf(q.u) /\ Len(p.v) = Len(q.v)
    /\ \A k \in 1..Len(p.v) : IF p.u = q.u THEN NEq(p.v[k], q.v[k]) ELSE NClose(Phys(p.v[k], p.u), Phys(q.v[k], q.u), "1e-12", "0")
(* edges that differ by no more than the rounding of a unit conversion may be seen as different *)
Doubtful(p, q) == p.u # q.u
Edges == {"low", "center", "high"}
SameBinning(h, g) == \A e \in Edges : SameColumn(h[e], g[e])
AnyDoubt(h, g)    == \E e \in Edges : Doubtful(h[e], g[e])

----------------------------------------------------------------------------
(* EventDisplay DL2 files                                                   *)
ColumnMap == [ OBS_ID |-> "obs_id", EVENT_ID |-> "event_id", MC_ENERGY |-> "true_energy", ENERGY |-> "reco_energy",
               MC_ALT |-> "true_alt", MC_AZ |-> "true_az", PNT_ALT |-> "pointing_alt", PNT_AZ |-> "pointing_az",
               ALT |-> "reco_alt", AZ |-> "reco_az", GH_MVA |-> "gh_score", MULTIP |-> "multiplicity" ]
NewName(c) == IF c \in DOMAIN ColumnMap THEN ColumnMap[c] ELSE c
Complete(f) == DOMAIN ColumnMap \subseteq DOMAIN f.events

Runs(f) == {<<f.events["OBS_ID"].v[k], f.events["PNT_AZ"].v[k], f.events["PNT_ALT"].v[k]>> : k \in 1..Len(f.events["OBS_ID"].v)}
Showers(f, hist) == IF hist THEN NSum(f.histogram) ELSE NMul(Cardinality(Runs(f)), NMul(f.header.num_use, f.header.num_showers))
=============================================================================
