------------------------------- MODULE Chain -------------------------------
(***************************************************************************)
(* The analysis chain from simulated events to a file of IRFs and back.     *)
(*                                                                         *)
(* A production is a sequence of reconstructed events; a cut table selects  *)
(* some of them; the response computed from the selected events is written, *)
(* read and folded with the simulated fluence.  The fold has to give back    *)
(* the number (the sum of the weights) of the selected events in each cell.  *)
(*                                                                         *)
(* event: [e |-> true energy, r |-> reconstructed energy, o |-> true offset, *)
(*         p |-> reconstructed offset, th |-> distance to the source,        *)
(*         gh |-> score, w |-> weight]                                       *)
(* cuts:  [edges, gh, tedges, th]: lower limit of gh, upper limit of th per   *)
(*         bin of reconstructed energy                                       *)
(***************************************************************************)
EXTENDS Irf, Cuts

Passes(x, c, pointlike) ==
    /\ Selected(x.gh, x.r, c.edges, c.gh, "ge")
    /\ pointlike => Selected(x.th, x.r, c.tedges, c.th, "le")
Survivors(S, c, pointlike) == SelectSeq(S, LAMBDA x : Passes(x, c, pointlike))

(* axes of a response: [E, M, F, S] true energy, migration, offset, source    *)
(* offset, and R, P reconstructed energy and offset of the background          *)
TallyOf(S, axes, Coord(_)) ==
    FillRows(EmptyTally(axes), Ev([k \in 1..Len(S) |-> Coord(S[k])]), Ev([k \in 1..Len(S) |-> S[k].w]))
AreaTally(S, A) == TallyOf(S, <<A.E, A.F>>, LAMBDA x : <<x.e, x.o>>)
DispTally(S, A) == TallyOf(S, <<A.E, A.M, A.F>>, LAMBDA x : <<x.e, NDiv(x.r, x.e), x.o>>)
PsfTally(S, A)  == TallyOf(S, <<A.E, A.F, A.S>>, LAMBDA x : <<x.e, x.o, x.th>>)
BkgTally(S, A)  == TallyOf(S, <<A.R, A.P>>, LAMBDA x : <<x.r, x.p>>)

(* showers simulated per (true energy, offset) *)
Simulated(info, A, a, f) ==
    NMul(info.n, NMul(EnergyShare(info, A.E[a], A.E[a + 1]), IF PointLike(info) THEN "1" ELSE FovShare(info, A.F[f], A.F[f + 1])))
(* the response as functions of the cells *)
ResponseOf(sel, gh, bkg, info, obstime, A) ==
    LET TA == AreaTally(sel, A)  TD == DispTally(sel, A)  TP == PsfTally(gh, A)  TB == BkgTally(bkg, A)
        C2(T, a, b) == Flat(<<a, b>>, Dims(T.axes), 1)
    IN Ev([area |-> [a \in 1..NBins(A.E) |-> [f \in 1..NBins(A.F) |->
                      LET n == TA.n[C2(TA, a, f)] IN IF n = 0 THEN "0" ELSE EffArea(n, Simulated(info, A, a, f), Area(info))]],
           disp |-> [a \in 1..NBins(A.E) |-> [m \in 1..NBins(A.M) |-> [f \in 1..NBins(A.F) |-> Dispersion(TD, a, m, f)]]],
           psf  |-> [a \in 1..NBins(A.E) |-> [f \in 1..NBins(A.F) |-> [s \in 1..NBins(A.S) |-> Psf(TP, a, f, s)]]],
           bkg  |-> [a \in 1..NBins(A.R) |-> [f \in 1..NBins(A.P) |->
                      NDiv(TB.w[C2(TB, a, f)], NMul(NMul(obstime, Width(A.R, a)), SolidRing(A.P[f], A.P[f + 1])))]]])
Response(S, B, c, pointlike, info, obstime, A) ==
    ResponseOf(Survivors(S, c, pointlike), Survivors(S, c, FALSE), Survivors(B, c, FALSE), info, obstime, A)

(*--- folding ----------------------------------------------------------------*)
FoldArea(R, info, A, a, f) == NDiv(NMul(R.area[a][f], Simulated(info, A, a, f)), Area(info))
SharePsf(R, A, a, f, s) == NMul(R.psf[a][f][s], SolidRing(A.S[s], A.S[s + 1]))
FoldBkg(R, obstime, A, a, f) == NMul(NMul(R.bkg[a][f], NMul(obstime, Width(A.R, a))), SolidRing(A.P[f], A.P[f + 1]))

Count(S, P(_)) == Cardinality({k \in 1..Len(S) : P(S[k])})
InCell(x, E, b) == HistBinOf(x, E) = b
Part(n, of) == IF of = 0 THEN "0" ELSE NDiv(n, of)
Near(x, y) == NClose(x, y, "1e-25", "1e-30")
(* counting straight from the events, without tallies *)
FoldsTo(R, sel, gh, bkg, info, obstime, A) ==
    /\ \A a \in 1..NBins(A.E), f \in 1..NBins(A.F) :
         LET in(x) == InCell(x.e, A.E, a) /\ InCell(x.o, A.F, f)
             inm(x) == in(x) /\ Inside(HistBinOf(NDiv(x.r, x.e), A.M), A.M)
             ins(x) == in(x) /\ Inside(HistBinOf(x.th, A.S), A.S) IN
         /\ Near(FoldArea(R, info, A, a, f), Count(sel, in))
         /\ \A m \in 1..NBins(A.M) :
              LET n == Count(sel, LAMBDA x : in(x) /\ InCell(NDiv(x.r, x.e), A.M, m)) IN
              Near(NMul(R.disp[a][m][f], Width(A.M, m)), Part(n, Count(sel, inm)))
         /\ \A s \in 1..NBins(A.S) :
              Near(SharePsf(R, A, a, f, s), Part(Count(gh, LAMBDA x : in(x) /\ InCell(x.th, A.S, s)), Count(gh, ins)))
    /\ \A a \in 1..NBins(A.R), f \in 1..NBins(A.P) :
         Near(FoldBkg(R, obstime, A, a, f),
              NSumOver({k \in 1..Len(bkg) : InCell(bkg[k].r, A.R, a) /\ InCell(bkg[k].p, A.P, f)}, LAMBDA k : bkg[k].w))
Folds(R, S, B, c, pointlike, info, obstime, A) ==
    FoldsTo(R, Survivors(S, c, pointlike), Survivors(S, c, FALSE), Survivors(B, c, FALSE), info, obstime, A)
=============================================================================
