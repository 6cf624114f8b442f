------------------------------ MODULE MCChain ------------------------------
(***************************************************************************)
(* A production grows event by event (gammas and background); at any time    *)
(* the whole chain can be run.  Next to the correct chain run eight faulty   *)
(* ones; each of them must fail to fold back to the events as soon as the    *)
(* history contains what triggers the fault.                                 *)
(***************************************************************************)
EXTENDS Chain, Json
CONSTANTS MaxEvents, EmitLen

A == [E |-> <<"1", "2", "8">>, M |-> <<"0.5", "1", "3">>, F |-> <<"0", "0.01", "0.04">>, S |-> <<"0", "0.02", "0.05">>,
      R |-> <<"1", "2", "8">>, P |-> <<"0", "0.02", "0.05">>]
Cuts0 == [edges |-> <<"1", "2", "8">>, gh |-> <<"0.5", "0.8">>, tedges |-> <<"1", "2", "8">>, th |-> <<"0.01", "0.03">>]
Sim == [n |-> "1000", emin |-> "1", emax |-> "8", index |-> "-2", impact |-> "500", vmin |-> "0", vmax |-> "0.05"]
Obs == "3600"
X(e, r, o, p, th, gh, w) == [e |-> e, r |-> r, o |-> o, p |-> p, th |-> th, gh |-> gh, w |-> w]
(* passes all; only the score; nothing; migrates to another energy bin; outside of one axis; on edges and cut values *)
Gammas == { X("1.5", "1.6", "0.005", "0.006", "0.005", "0.6", "2"), X("1.5", "1.2", "0.02", "0.03", "0.015", "0.7", "3"),
            X("3", "2.5", "0.02", "0.01", "0.005", "0.6", "1"), X("1.5", "2.5", "0.005", "0.01", "0.015", "0.8", "5"),
            X("4", "1.5", "0.005", "0.01", "0.01", "0.5", "0.25"), X("2", "2", "0.01", "0.02", "0.03", "0.9", "7"),
            X("3", "4", "0.02", "0.02", "0.06", "0.9", "1"), X("6", "9", "0.03", "0.03", "0.01", "0.9", "1") }
Backgrounds == { X("3", "1.5", "0.005", "0.01", "0.5", "0.6", "2"), X("3", "2", "0.03", "0.02", "0.5", "0.7", "4"),
                 X("9", "4", "0.02", "0.06", "0.5", "0.9", "3"), X("1", "8", "0.02", "0.05", "0.5", "0.9", "5") }
VARIABLES S, B, pl
vars == <<S, B, pl>>
Init == S = <<>> /\ B = <<>> /\ pl \in BOOLEAN
Next == /\ Len(S) + Len(B) < MaxEvents
        /\ UNCHANGED pl
        /\ \/ \E x \in Gammas : S' = Append(S, x) /\ UNCHANGED B
           \/ \E x \in Backgrounds : B' = Append(B, x) /\ UNCHANGED S
Spec == Init /\ [][Next]_vars

(* a history h = [g |-> gammas, b |-> background, pl |-> point-like] *)
H == [g |-> S, b |-> B, pl |-> pl]
Sel(h) == Survivors(h.g, Cuts0, h.pl)
Gh(h)  == Survivors(h.g, Cuts0, FALSE)
Bg(h)  == Survivors(h.b, Cuts0, FALSE)
Pure == Response(S, B, Cuts0, pl, Sim, Obs, A)
Sound == Folds(Pure, S, B, Cuts0, pl, Sim, Obs, A)
(* the fold of the spectrum that was simulated is the sum of the weights, if all weigh the same *)
Weighted == \A a \in 1..2, f \in 1..2 : LET q == SelectSeq(Sel(H), LAMBDA x : InCell(x.e, A.E, a) /\ InCell(x.o, A.F, f)) IN
    (q # <<>> /\ \A k \in 1..Len(q) : q[k].w = q[1].w) => Near(NMul(FoldArea(Pure, Sim, A, a, f), q[1].w), NSumOver(1..Len(q), LAMBDA k : q[k].w))

(*--- faults -------------------------------------------------------------------*)
ByTrue(x) == [x EXCEPT !.r = x.e]
Faults == {"no-cut-in-psf", "no-theta-cut", "theta-cut-in-psf", "cut-bin-by-true-energy", "strict-cut", "area-in-reco-energy",
           "unweighted-background", "reco-offset"}
MapSeq(F(_), q) == [k \in 1..Len(q) |-> F(q[k])]
Strict(x, point) == LET b == BinOf(x.r, Cuts0.edges) IN Inside(b, Cuts0.edges) /\ NGt(x.gh, Cuts0.gh[b]) /\ (point => NLe(x.th, Cuts0.th[b]))
(* what the faulty chain puts into the response: selected, for the psf, background *)
Stage(f, h) ==
    CASE f = "no-cut-in-psf"          -> <<Sel(h), h.g, Bg(h)>>
      [] f = "no-theta-cut"           -> <<Gh(h), Gh(h), Bg(h)>>
      [] f = "theta-cut-in-psf"       -> <<Sel(h), Sel(h), Bg(h)>>
      [] f = "cut-bin-by-true-energy" -> <<SelectSeq(h.g, LAMBDA x : Passes(ByTrue(x), Cuts0, h.pl)), Gh(h), Bg(h)>>
      [] f = "strict-cut"             -> <<SelectSeq(h.g, LAMBDA x : Strict(x, h.pl)), Gh(h), Bg(h)>>
      [] f = "area-in-reco-energy"    -> <<Sel(h), Gh(h), Bg(h)>>
      [] f = "unweighted-background"  -> <<Sel(h), Gh(h), MapSeq(LAMBDA x : [x EXCEPT !.w = "1"], Bg(h))>>
      [] f = "reco-offset"            -> <<MapSeq(LAMBDA x : [x EXCEPT !.o = x.p], Sel(h)), Gh(h), Bg(h)>>
Broken(f, h) ==
    LET s == Stage(f, h)
        R == ResponseOf(s[1], s[2], s[3], Sim, Obs, A)
    IN IF f # "area-in-reco-energy" THEN R
       ELSE [R EXCEPT !.area = ResponseOf(MapSeq(LAMBDA x : [x EXCEPT !.e = x.r], Sel(h)), Gh(h), Bg(h), Sim, Obs, A).area]
(* does the fault change what is counted anywhere? *)
Counts(sel, gh, bkg) == <<AreaTally(sel, A).n, DispTally(sel, A).n, BkgTally(bkg, A).w>>
Shares(gh) == LET T == PsfTally(gh, A) IN [a \in 1..2 |-> [f \in 1..2 |-> [s \in 1..2 |-> LET n == Over3(T, a, f) IN IF n = 0 THEN "0" ELSE NDiv(N3(T, a, f, s), n)]]]
Same(x, y) == \A a \in 1..2, f \in 1..2, s \in 1..2 : NClose(x[a][f][s], y[a][f][s], "1e-30", "0")
Triggered(f, h) ==
    LET s == Stage(f, h) IN
    IF f = "area-in-reco-energy" THEN AreaTally(MapSeq(LAMBDA x : [x EXCEPT !.e = x.r], Sel(h)), A).n # AreaTally(Sel(h), A).n
    ELSE LET p == Counts(Sel(h), Gh(h), Bg(h))  q == Counts(s[1], s[2], s[3]) IN
         \/ p[1] # q[1]
         \/ \E k \in 1..Len(p[3]) : ~NEq(p[3][k], q[3][k])
         \/ ~Same(Shares(Gh(h)), Shares(s[2]))
Detected == \A f \in Faults : Triggered(f, H) => ~Folds(Broken(f, H), S, B, Cuts0, pl, Sim, Obs, A)
(* every fault has a trigger among the smallest histories *)
Small == {[g |-> <<x>>, b |-> <<>>, pl |-> q] : x \in Gammas, q \in BOOLEAN} \cup {[g |-> <<>>, b |-> <<x>>, pl |-> FALSE] : x \in Backgrounds}
         \cup {[g |-> <<x, y>>, b |-> <<>>, pl |-> TRUE] : x, y \in Gammas}
ASSUME \A f \in Faults : \E h \in Small : Triggered(f, h)
EmitBeh == (Len(S) + Len(B) = EmitLen) =>
    PrintT("BEH|" \o ToJson([g |-> S, b |-> B, pl |-> pl, faults |-> {f \in Faults : Triggered(f, H)}]))
=============================================================================
