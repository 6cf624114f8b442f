------------------------------- MODULE TExport -------------------------------
(***************************************************************************)
(* Trace specification for pyirf.io.gadf and pyirf.gammapy.  The state F is *)
(* the file: the arguments from which the HDU of each name was created.     *)
(***************************************************************************)
EXTENDS TraceLib, Export

VARIABLES t, i, F
vars == <<t, i, F>>

(* ev.axes[k] = [v, u] the edges of axis k; ev.data.v row-major in the order   *)
(* of the axes; ev.data.u a product of powers                                  *)
AxisOK(ev) == \A k \in 1..Len(ev.axes) :
    UnitDim[ev.axes[k].u] = AxisDim[Table[ev.kind].axes[k]] \/ (ev.axes[k].u = "none" /\ Table[ev.kind].axes[k] = "MIGRA")
DataOK(ev) == UDims(ev.data.u) = UDims(Table[ev.kind].unit)
Accepted(ev) == AxisOK(ev) /\ DataOK(ev) /\ (ev.kind = "bkg3d" => ev.align \in {"ALTAZ", "RADEC"})
Name(ev) == IF ev.extname = "" THEN Table[ev.kind].name ELSE ev.extname

JCreate(ev) ==
    IF ~AxisOK(ev) \/ ~DataOK(ev) THEN Clause("incompatible-unit-rejected", ev.out.k = "raise")
    ELSE IF ~Accepted(ev) THEN Clause("unknown-alignment-raises-ValueError", Raised(ev.out, {"ValueError"}))
    ELSE IF ~Ok(ev.out) THEN {"unexpected-exception"}
    ELSE (* time of creation (UTC) and creator, unless given by the user *)
         Clause("creation-time", Has(ev.cards, "DATE") \/ (NLe(NSub(ev.span[1], "1"), ev.out.date) /\ NLe(ev.out.date, NAdd(ev.span[2], "1"))))
         \cup Clause("creator", Has(ev.cards, "CREATOR") \/ ev.out.creator = ev.creator)

Tol == "1e-13"
(* value of edge k of an axis in the unit of the standard *)
EdgeStd(ax, name, k) == NDiv(Phys(ax.v[k], ax.u), UnitSize[AxisUnit[name]])
JEdges(c, r) ==
    LET A == Table[c.kind].axes IN
    UNION {LET n == Len(c.axes[k].v) - 1  lo == r.cols[A[k] \o "_LO"]  hi == r.cols[A[k] \o "_HI"] IN
        Clause("edge-columns", Len(lo.v) = n /\ Len(hi.v) = n
            /\ (\A j \in 1..n : NClose(lo.v[j], EdgeStd(c.axes[k], A[k], j), Tol, "0")
                             /\ NClose(hi.v[j], EdgeStd(c.axes[k], A[k], j + 1), Tol, "0")))
        \cup Clause("edge-units", lo.u = AxisUnit[A[k]] /\ hi.u = AxisUnit[A[k]])
      : k \in 1..Len(A)}
JData(c, r) ==
    LET K == Table[c.kind]
        d == [k \in 1..Len(c.axes) |-> Len(c.axes[k].v) - 1]
        f == NDiv(USize(c.data.u), USize(K.unit))
        D == r.data IN
    Clause("data-axes-reversed", D.dims = d)
    \cup Clause("data-unit", D.u = K.unit)
    \cup (IF Len(D.v) # Prod(d) THEN {"data-size"}
          ELSE Clause("data-values", \A x \in Cells(d) :
              NClose(D.v[FitsPos(x, d, 1) + 1], NMul(c.data.v[RowPos(x, d, Len(d)) + 1], f), Tol, "0")))
JCards(c, r) ==
    LET K == Table[c.kind]  H == r.cards IN
    Clause("classification", /\ H["HDUCLAS1"] = "s:RESPONSE" /\ H["HDUCLAS2"] = "s:" \o K.c2
                             /\ H["HDUCLAS4"] = "s:" \o K.c4 /\ H["HDUCLASS"] = "s:GADF"
                             /\ H["HDUVERS"] = "s:0.2" /\ H["HDUDOC"] = "s:https://github.com/open-gamma-ray-astro/gamma-astro-data-formats")
    \cup Clause("point-like-or-full-enclosure", H["HDUCLAS3"] = "s:" \o Enclosure(c.kind, c.pointlike))
    \cup Clause("axis-reference", r.cref = Cref(c.kind))
    \cup Clause("one-axis-reference", Len(r.crefs) = 1)
    \cup Clause("cards-of-another-table", (c.kind # "bkg3d" => ~Has(H, "FOVALIGN"))
           /\ \A k \in {"TELESCOP", "INSTRUME", "OBS_ID", "ZEN_PNT", "DIRTY", "ORIGIN"} : Has(H, k) => k \in DOMAIN c.cards)
    \cup Clause("alignment", c.kind = "bkg3d" => H["FOVALIGN"] = "s:" \o c.align)
    \cup Clause("extra-cards", \A k \in DOMAIN c.cards : Has(H, k) /\ H[k] = c.cards[k])
JRead(ev) ==
    IF ev.name \notin DOMAIN F THEN Clause("unknown-extension", ev.out.k = "raise")
    ELSE IF ~Ok(ev.out) THEN {"unreadable"}
    ELSE LET c == F[ev.name] IN
         Clause("columns", {ev.out.names[k] : k \in 1..Len(ev.out.names)} =
                {Table[c.kind].data} \cup UNION {{Table[c.kind].axes[k] \o "_LO", Table[c.kind].axes[k] \o "_HI"} : k \in 1..Len(c.axes)})
         \cup JEdges(c, ev.out) \cup JData(c, ev.out) \cup JCards(c, ev.out)

(*--- gammapy ------------------------------------------------------------------*)
GAxes == [aeff2d |-> <<"energy_true", "offset">>, psf |-> <<"energy_true", "offset", "rad">>,
          edisp |-> <<"energy_true", "migra", "offset">>]
UnitClass(k) == IF k = "aeff2d" THEN {<<"area", 1>>} ELSE IF k = "psf" THEN {<<"solidangle", -1>>} ELSE {}
JGammapy(ev) ==
    IF ~AxisOK(ev) \/ UDims(ev.data.u) # UnitClass(ev.kind) THEN Clause("incompatible-unit-rejected", ev.out.k = "raise")
    ELSE IF ~Ok(ev.out) THEN {"unexpected-exception"}
    ELSE LET o == ev.out
             d == [k \in 1..Len(ev.axes) |-> Len(ev.axes[k].v) - 1]
             f == USize(ev.data.u) IN
         Clause("class", o.class = [aeff2d |-> "EffectiveAreaTable2D", psf |-> "PSF3D", edisp |-> "EnergyDispersion2D"][ev.kind])
         \cup Clause("axes", o.axes = GAxes[ev.kind])
         \cup Clause("edges", Len(o.edges) = Len(d) /\ \A k \in 1..Len(d) :
                 Len(o.edges[k]) = d[k] + 1 /\ \A j \in 1..(d[k] + 1) : NClose(o.edges[k][j], Phys(ev.axes[k].v[j], ev.axes[k].u), Tol, "0"))
         \cup Clause("values", o.dims = d /\ Len(o.v) = Prod(d) /\ \A j \in 1..Len(o.v) : NClose(o.v[j], NMul(ev.data.v[j], f), Tol, "0"))
         \cup Clause("lookup-at-bin-centers", Len(o.look) = Prod(d) /\ \A j \in 1..Len(o.look) :
                 NClose(o.look[j], NMul(ev.data.v[j], f), "1e-9", NMul("1e-9", NMul(f, NMaxOf(ev.data.v)))))

Event == Traces[t].ev[i + 1]
Judge(ev) ==
    CASE ev.op = "create" -> JCreate(ev)
      [] ev.op = "read" -> JRead(ev)
      [] ev.op = "gammapy" -> JGammapy(ev)

Init == t \in DOMAIN Traces /\ i = 0 /\ F = <<>>
Next == /\ i < Len(Traces[t].ev)
        /\ i' = i + 1
        /\ t' = t
        /\ F' = IF Event.op = "create" /\ Accepted(Event) THEN (Name(Event) :> Event) @@ F ELSE F
        /\ Report(Traces[t].id, i + 1, i + 1 = Len(Traces[t].ev), Judged(Event, Judge))
Spec == Init /\ [][Next]_vars
=============================================================================
