------------------------------- MODULE TInterp -------------------------------
(***************************************************************************)
(* Trace specification for pyirf.interpolation.  The state E holds the      *)
(* estimators constructed so far in a session, by name; a call does not     *)
(* change it.                                                               *)
(***************************************************************************)
EXTENDS TraceLib, Interpolation

VARIABLES t, i, E
vars == <<t, i, E>>

Dim(ev) == Len(ev.grid[1])
Pdf(ev) == ev.cls \in {"pdf", "edisp", "psf"} \/ ev.method \in {"mm", "mmx", "quant", "pnn"}
(* which linear or morphing rule is used; "pnn" is the searcher for PDFs *)
Simplicial == {"nsx", "ve", "mm", "mmx"}
Methods(ev) == {ev.method, ev.extra}

(*--- construction ------------------------------------------------------------*)
BadInit == [ grid_list |-> {"TypeError"}, grid_object |-> {"TypeError"}, grid_complex |-> {"TypeError"}, grid_text |-> {"TypeError"},
             values_list |-> {"TypeError"}, edges_list |-> {"TypeError"}, few_points |-> {"ValueError"},
             more_values |-> {"ValueError"}, more_points |-> {"ValueError"}, bins |-> {"ValueError"},
             interp_class |-> {"TypeError"}, extrap_class |-> {"TypeError"},
             m_number |-> {"ValueError"}, m_type |-> {"TypeError"}, ord |-> {"ValueError"},
             fill_3d |-> {"ValueError"}, unit |-> {"UnitsError", "UnitConversionError", "UnitTypeError", "TypeError"} ]
JInit(ev) ==
    IF ev.bad # "" THEN Clause("malformed-argument-rejected: " \o ev.bad, Raised(ev.out, BadInit[ev.bad]))
    ELSE IF Dim(ev) > 2 /\ Methods(ev) \cap Simplicial # {}
         THEN Clause("unsupported-dimension-rejected", Raised(ev.out, {"NotImplementedError"}))
    ELSE Clause("unexpected-exception", Ok(ev.out))
Accepted(ev) == ev.bad = "" /\ ~(Dim(ev) > 2 /\ Methods(ev) \cap Simplicial # {})

Build(ev) ==
    LET P == ev.grid  n == Len(P) IN
    [ev |-> ev,
     g  |-> [p |-> P,
             s |-> IF Dim(ev) <= 2 THEN Ev(Simplices(P)) ELSE {},
             m |-> ev.m, ord |-> ev.ord,
             order |-> IF Dim(ev) = 1 /\ ev.cls # "raw" THEN Ascending(P) ELSE Ev([k \in 1..n |-> k])],
     (* templates: numbers in the canonical unit; logarithms for effective areas *)
     v  |-> IF ev.cls = "aeff"
            THEN Ev([k \in 1..n |-> [j \in 1..Len(ev.values[k]) |-> NLn(NMax(Phys(ev.values[k][j], ev.unit), QX(ev.floor)))]])
            ELSE IF ev.cls = "psf"
            THEN Ev([k \in 1..n |-> [j \in 1..Len(ev.values[k]) |-> NDiv(ev.values[k][j], UnitSize[ev.unit])]])
            ELSE ev.values,
     e  |-> IF Pdf(ev) THEN QV(ev.edges) ELSE <<>>]

(*--- calls ---------------------------------------------------------------------*)
Cell(B, c) == [k \in 1..Len(B.v) |-> B.v[k][c]]          \* one number over the grid
NCell(B)   == Len(B.v[1])
AbsMax(s)  == NMaxOf(SMap(NAbs, s))
(* the angles of visible edges are taken as arc cosines: small ones are imprecise *)
CTol(B, method, cand, c) == NMul(NMul(IF method = "ve" THEN "1e-6" ELSE "1e-9", NAdd("1", Weight(cand))), AbsMax(Cell(B, c)))
LinearOK(B, method, cand, y) == \A c \in 1..NCell(B) : NClose(y[c], Combine(cand, Cell(B, c)), "0", CTol(B, method, cand, c))

AeffOK(B, method, cand, y) == \A c \in 1..NCell(B) :
    LET x == NExp(Combine(cand, Cell(B, c)))  fl == QX(B.ev.floor)
        tol == NAdd("1e-11", NMul(IF method = "ve" THEN "1e-6" ELSE "1e-13", NMul(Weight(cand), AbsMax(Cell(B, c)))))
    IN \/ NLe(x, NMul(fl, NAdd("1", tol))) /\ NEq(y[c], "0")
       \/ NGe(x, NMul(fl, NSub("1", tol))) /\ (NClose(y[c], x, tol, "0") \/ (NGt(x, "1e308") /\ NPos(y[c]) /\ ~NIsFinite(y[c])))

(* RAD_MAX: s is the simplex whose templates decide about fill values *)
FillValue(B) == IF B.ev.fill = "none" THEN "nan"
                ELSE IF B.ev.fill = "infer" THEN NMaxOf(Ev([k \in 1..Len(B.v) |-> NMaxOf(B.v[k])]))
                ELSE B.ev.fill
RadMaxOK(B, method, cand, s, y) == LET fill == FillValue(B) IN \A c \in 1..NCell(B) :
    LET plain == NMax("0", Combine(cand, Cell(B, c)))
        n == IF NIsNan(fill) THEN 0 ELSE Cardinality({k \in 1..Len(s) : NGe(B.v[s[k]][c], fill)})
    IN IF NIsNan(fill) \/ Len(s) = 0 THEN NClose(y[c], plain, "0", CTol(B, method, cand, c))
       ELSE IF n >= 2 \/ (n = 1 /\ Len(s) = 2) THEN NClose(y[c], fill, "1e-14", "0")
       ELSE IF n = 1 THEN NSame(y[c], NMinOf([k \in 1..3 |-> B.v[s[k]][c]]))
       ELSE NClose(y[c], NMin(plain, fill), "0", CTol(B, method, cand, c))

(* discrete PDFs *)
ShapeOf(B) == B.ev.shape
PdfLines(B) == Lines(ShapeOf(B), B.ev.axis)
Templates(B, cand, b) == Ev([k \in 1..Len(cand) |-> Line(B.v[cand[k].i], ShapeOf(B), B.ev.axis, b)])
AnyEmpty(F) == \E k \in 1..Len(F) : Empty(F[k])
Cut(f) == SMap(LAMBDA x : NMax("0", x), f)
MorphOK(B, cand, b, y) ==
    LET F == Templates(B, cand, b)  w == BinSize(B.e, B.ev.norm) IN
    IF AnyEmpty(F) THEN Empty(y)
    ELSE LET M == Morph(cand, F, B.e, B.ev.norm)
             f == M.f
             tot == NDot(f, w)
             want == Normed(Cut(f), w)
             abs == NDot(SMap(NAbs, f), w)
         IN \/ \E k \in 1..Len(f) : NIsNan(f[k])          \* a height taken at the edge of a bin
            \/ ~NPos(M.std) \/ NLe(tot, NMul("0.02", NMax("1", abs)))     \* leaves the range of the bins
            \/ SClose(y, want, "1e-6", NMul("1e-7", NMaxOf(want)))
MorphClear(B, cand, b) ==
    LET F == Templates(B, cand, b)  w == BinSize(B.e, B.ev.norm) IN
    ~AnyEmpty(F) /\ LET M == Morph(cand, F, B.e, B.ev.norm) tot == NDot(M.f, w) IN
        NPos(M.std) /\ ~NIsNan(tot) /\ NGt(tot, NMul("0.02", NMax("1", NDot(SMap(NAbs, M.f), w))))

(* The session declares (smooth) that its templates are single bumps resolved  *)
(* by the bins; then quantiles and the mean move linearly.                     *)
(* Positions are resolved to about half a bin, in the tails to a bin.          *)
QS == <<"0.02", "0.05", "0.1", "0.25", "0.5", "0.75", "0.9", "0.95", "0.98">>
QTol(k) == IF k \in {1, 9} THEN "1.1" ELSE "0.7"
QuantOK(B, cand, b, y) ==
    LET F == Templates(B, cand, b)  w == BinSize(B.e, B.ev.norm)  bw == NMaxOf(SDiff(B.e)) IN
    IF AnyEmpty(F) THEN Empty(y)
    ELSE IF B.ev.levels > 0
    THEN LET Q == QuantileBlend(cand, F, w, B.e, B.ev.levels) IN
         Q.clear => SClose(y, Q.f, "1e-7", NMul("1e-8", NMaxOf(Q.f)))
    ELSE IF ~B.ev.smooth \/ Empty(y) THEN TRUE
    ELSE /\ \A k \in 1..Len(QS) : NClose(HistQuantile(y, w, B.e, QS[k]),
               NSum(Ev([j \in 1..Len(cand) |-> NMul(cand[j].c, HistQuantile(F[j], w, B.e, QS[k]))])), "0", NMul(QTol(k), bw))
         /\ NClose(Mean(y, w, Mids(B.e)), NSum(Ev([j \in 1..Len(cand) |-> NMul(cand[j].c, Mean(F[j], w, Mids(B.e)))])), "0", NMul("0.6", bw))

YLine(B, y, b) == Line(y, ShapeOf(B), B.ev.axis, b)
(* entries are finite and not negative, to rounding *)
Proper(B, y) == /\ \A c \in 1..Len(y) : NIsFinite(y[c])
                /\ LET least == NMul("-1e-13", NMaxOf(y)) IN \A c \in 1..Len(y) : NNonNeg(y[c]) \/ NGe(y[c], least)
(* the content of each line is one, or zero with an empty template *)
NormOK(B, method, cand, y) ==
    LET w == BinSize(B.e, B.ev.norm)
        (* solid angles are differences of cosines: those of tiny rings are known less well *)
        tol == IF B.ev.norm = "cone" THEN NMax("1e-9", NDiv(NMul("4e-15", NSum(w)), NMinOf(w))) ELSE "1e-9" IN
    \A b \in PdfLines(B) :
      LET z == YLine(B, y, b)  F == Templates(B, cand, b)  one == NClose(NDot(z, w), "1", tol, "0") IN
      IF AnyEmpty(F) THEN Empty(z)
      ELSE IF method = "quant" THEN (IF B.ev.smooth THEN one ELSE one \/ Empty(z))   \* too coarse quantiles miss all edges
      ELSE IF MorphClear(B, cand, b) THEN one ELSE one \/ Empty(z)
PdfOK(B, method, cand, y) == \A b \in PdfLines(B) :
    IF method = "quant" THEN QuantOK(B, cand, b, YLine(B, y, b)) ELSE MorphOK(B, cand, b, YLine(B, y, b))

Base(method) == CASE method \in {"lin", "mm", "quant"} -> "lin"
                  [] method \in {"nsx", "mmx"} -> "nsx"
                  [] method = "ve" -> "ve"
                  [] method \in {"nn", "pnn"} -> "nn"

(* the arguments of griddata: another kind of interpolation, values outside *)
GridKind(B, x, y) ==
    IF B.ev.kind = "nearest"
    THEN Clause("nearest-node", \E k \in ClosestNodes(B.g.p, x) : \A c \in 1..NCell(B) : NSame(y[c], B.v[k][c]))
    ELSE Clause("no-value-outside-of-the-grid", \A c \in 1..NCell(B) : NSame(y[c], B.ev.outside))

JValues(B, method, x, y) ==
    LET C == Candidates(B.g, Base(method), x) IN
    IF method = "nn" \/ method = "pnn"
    THEN Clause("nearest-template-unchanged", \E c \in C : \A k \in 1..NCell(B) :
            IF B.ev.cls \in {"aeff", "psf"} THEN
                 IF B.ev.cls = "aeff" THEN AeffOK(B, method, c, y) ELSE NClose(y[k], B.v[c[1].i][k], "1e-13", "0")
            ELSE NSame(y[k], B.v[c[1].i][k]))
    ELSE IF B.ev.cls = "aeff" THEN Clause("exponential-of-interpolated-logarithm", \E c \in C : AeffOK(B, method, c, y))
    ELSE IF B.ev.cls = "radmax"
    THEN LET S == IF InGrid(B.g.p, B.g.s, x) THEN Enclosing(B.g.p, B.g.s, x) ELSE NearestSimplices(B.g.p, B.g.s, x) IN
         Clause("rad-max", IF method = "ve" THEN \E c \in C, s \in S : RadMaxOK(B, method, c, s, y)
                           ELSE \E s \in S : RadMaxOK(B, method, Pairs(B.g.p, s, x), s, y))
    ELSE IF Pdf(B.ev)
    THEN IF ~Proper(B, y) THEN {"finite-and-not-negative"}
         ELSE Clause("normalised-or-zero", \E c \in C : NormOK(B, method, c, y))
         \cup Clause(IF method = "quant" THEN "quantiles-move-linearly" ELSE "moment-morphing", \E c \in C : PdfOK(B, method, c, y))
    ELSE Clause(IF method = "lin" THEN "linear-interpolation" ELSE IF method = "ve" THEN "visible-edges-extrapolation" ELSE "nearest-simplex-extrapolation",
                \E c \in C : LinearOK(B, method, c, y))

(* three dimensions: the trace carries a witness that the target is a convex    *)
(* combination of grid points, or the target is outside of the bounding box     *)
Witness(B, ev) == /\ ev.witness # <<>>
                  /\ \A k \in 1..Len(ev.witness) : NNonNeg(ev.witness[k])
                  /\ NClose(NSum(ev.witness), "1", "1e-12", "0")
                  /\ \A d \in 1..Len(ev.target) : NClose(NDot(ev.witness, [k \in 1..Len(B.g.p) |-> B.g.p[k][d]]), ev.target[d], "0", "1e-9")
Boxed(B, ev) == \A d \in 1..Len(ev.target) : LET c == [k \in 1..Len(B.g.p) |-> B.g.p[k][d]] IN
                    NLe(NMinOf(c), ev.target[d]) /\ NLe(ev.target[d], NMaxOf(c))
(* c0 + c . p for the numbers that the trace claims to be affine in the grid *)
Affine(cs, p) == NAdd(cs[1], NSum(Ev([d \in 1..Len(p) |-> NMul(cs[d + 1], p[d])])))
J3D(B, ev, y) ==
    Clause("within-the-range-of-the-nodes", \A c \in 1..NCell(B) :
        NGe(y[c], NSub(NMinOf(Cell(B, c)), CTol(B, "lin", <<>>, c))) /\ NLe(y[c], NAdd(NMaxOf(Cell(B, c)), CTol(B, "lin", <<>>, c))))
    \cup Clause("affine-functions-reproduced", \A c \in 1..NCell(B) :
        (c <= Len(B.ev.affine) /\ \A k \in 1..Len(B.g.p) : NClose(B.v[k][c], Affine(B.ev.affine[c], B.g.p[k]), "1e-12", "1e-12"))
        => NClose(y[c], Affine(B.ev.affine[c], ev.target), "0", NMul("1e3", CTol(B, "lin", <<>>, c))))
    \cup Clause("node-reproduced", \A k \in 1..Len(B.g.p) : (\A d \in 1..Len(ev.target) : NEq(B.g.p[k][d], ev.target[d]))
        => \A c \in 1..NCell(B) : NClose(y[c], B.v[k][c], "0", CTol(B, "lin", <<>>, c)))

BadCall == [ list |-> {"TypeError"}, several |-> {"ValueError"}, dimension |-> {"ValueError"} ]
JCall(ev) ==
    LET B == E[ev.name]  e == B.ev IN
    IF ev.bad # "" THEN Clause("malformed-target-rejected: " \o ev.bad, Raised(ev.out, BadCall[ev.bad]))
    ELSE LET inside == IF Dim(e) <= 2 THEN InGrid(B.g.p, B.g.s, ev.target) ELSE Witness(B, ev)
             method == IF e.cls = "raw" \/ inside THEN e.method ELSE e.extra
             nn == method \in {"nn", "pnn"}
         IN IF Dim(e) > 2 /\ ~inside /\ Boxed(B, ev) THEN {"undecided-target"}
            ELSE IF method = "none" THEN Clause("outside-without-extrapolator-raises-ValueError", Raised(ev.out, {"ValueError"}))
            ELSE IF ~Ok(ev.out) THEN {"unexpected-exception"}
            ELSE Clause("warns-iff-extrapolated", e.cls = "raw" \/ ev.out.warned = ~inside)
                 \cup (IF ev.out.shape # (IF nn THEN e.shape ELSE <<1>> \o e.shape) THEN {"shape"}
                       ELSE IF method = "lin" /\ (e.kind = "nearest" \/ (Dim(e) <= 2 /\ ~inside)) THEN GridKind(B, ev.target, ev.out.v)
                       ELSE IF Dim(e) > 2 /\ ~nn THEN J3D(B, ev, ev.out.v)
                       ELSE JValues(B, method, ev.target, ev.out.v))

Event == Traces[t].ev[i + 1]
Judge(ev) ==
    CASE ev.op = "init" -> JInit(ev)
      [] ev.op = "call" -> JCall(ev)
      [] ev.op = "scribble" -> {}

Init == t \in DOMAIN Traces /\ i = 0 /\ E = <<>>
Next == /\ i < Len(Traces[t].ev)
        /\ i' = i + 1
        /\ t' = t
        /\ E' = IF Event.op = "init" /\ Accepted(Event) /\ Ok(Event.out) THEN (Event.name :> Build(Event)) @@ E ELSE E
        /\ Report(Traces[t].id, i + 1, i + 1 = Len(Traces[t].ev), Judged(Event, Judge))
Spec == Init /\ [][Next]_vars
=============================================================================
