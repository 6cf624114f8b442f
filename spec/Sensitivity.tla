---------------------------- MODULE Sensitivity ----------------------------
(***************************************************************************)
(* Significance, relative sensitivity, background estimate, sensitivity     *)
(* table and cut optimisation (pyirf.statistics, sensitivity,               *)
(* cut_optimization).                                                       *)
(***************************************************************************)
EXTENDS Cuts

Clause0(name, cond) == IF cond THEN {} ELSE {name}

(*--- Li & Ma, formula 17, 0 below the background expectation ---------------*)
LiMaT1(on, off, al) == IF NEq(on, "0") THEN "0"
                       ELSE NMul(on, NLn(NMul(NDiv(NAdd("1", al), al), NDiv(on, NAdd(on, off)))))
LiMaT2(on, off, al) == IF NEq(off, "0") THEN "0"
                       ELSE NMul(off, NLn(NMul(NAdd("1", al), NDiv(off, NAdd(on, off)))))
LiMaTS(on, off, al) == IF NLe(on, NMul(al, off)) THEN "0"
                       ELSE NMax("0", NAdd(LiMaT1(on, off, al), LiMaT2(on, off, al)))
LiMa(on, off, al) == NSqrt(NMul("2", LiMaTS(on, off, al)))
(* rounding error of the likelihood ratio evaluated in doubles               *)
LiMaErr(on, off, al) == IF NLe(on, NMul(al, off)) THEN "0"
    ELSE NMul("2e-14", NSum(<<on, off, NAbs(LiMaT1(on, off, al)), NAbs(LiMaT2(on, off, al))>>))

(* significance functions a user may plug in *)
Sig(f, on, off, al) ==
    CASE f = "lima"   -> LiMa(on, off, al)
      [] f \in {"simple", "partial", "blind"} -> NDiv(NSub(on, NMul(al, off)), NSqrt(NAdd(NAdd(on, NMul(NMul(al, al), off)), "1")))
      [] f = "excess" -> NDiv(NSub(on, NMul(al, off)), "4")

(* functions that are nan: everywhere / for many background events           *)
BlindAbove == "0.25"
Blind(f, off) == f = "blind" \/ (f = "partial" /\ NGt(off, BlindAbove))
NearBlind(f, off) == f = "partial" /\ NClose(off, BlindAbove, "1e-7", "0")

(*--- relative sensitivity ---------------------------------------------------*)
(* crit = [f, sig, events, excess]                                            *)
Background(off, al) == NMul(al, off)
Signal(on, off, al) == NSub(on, Background(off, al))
Meets(r, on, off, al, crit) ==
    LET bg == Background(off, al)  s == NMul(r, Signal(on, off, al)) IN
    /\ NGe(s, crit.events)
    /\ NGe(s, NMul(crit.excess, bg))
    /\ NGe(Sig(crit.f, NAdd(s, bg), off, al), crit.sig)

(* relative accuracy of the numerical solution: the root finder, rounding of   *)
(* the significance and of the excess                                         *)
Delta(r, on, off, al, crit) ==
    LET s == NAdd(NMul(r, NAbs(Signal(on, off, al))), Background(off, al)) IN
    NSum(<<"1e-8", NDiv(NMul("1e-13", NAdd(s, off)), NMul(crit.sig, crit.sig)),
           NDiv(NMul("2e-15", on), NAbs(Signal(on, off, al)))>>)

(* verdict on a reported relative sensitivity r: the smallest scaling that    *)
(* meets all three criteria                                                   *)
RelSensVerdict(r, on, off, al, crit) ==
    LET s == Signal(on, off, al)
        marginal == NLe(NAbs(s), NMul("1e-13", on))
    IN IF NIsNan(on) \/ NIsNan(off) THEN Clause0("nan-input-gives-nan", NIsNan(r))
       ELSE IF marginal /\ ~NEq(s, "0") THEN {}
       ELSE IF NLe(s, "0") THEN Clause0("no-excess-gives-infinity", NEq(r, "inf"))
       ELSE IF NearBlind(crit.f, off) THEN {}
       ELSE IF Blind(crit.f, off) THEN Clause0("nan-without-a-solution", NIsNan(r))
       ELSE IF ~NIsFinite(r) \/ NLe(r, "0") THEN {"finite-relative-sensitivity"}
       ELSE LET d == Delta(r, on, off, al, crit) IN
            Clause0("criteria-met", Meets(NMul(r, NAdd("1", d)), on, off, al, crit))
            \cup Clause0("smallest", ~Meets(NMul(r, NSub("1", d)), on, off, al, crit))

(*--- background estimate ------------------------------------------------------*)
ConeSA(theta) == NMul(NMul("2", NPi), NVersin(theta))
InRing(x, lo, hi) == NLe(lo, x) /\ NLt(x, hi)
(* size of the on region relative to the ring, divided by alpha *)
SizeRatio(theta, lo, hi, al) ==
    NDiv(NDiv(ConeSA(theta), NSub(ConeSA(hi), ConeSA(lo))), al)
(* relative error of the difference of two solid angles in doubles *)
SizeErr(theta, lo, hi) ==
    NSum(<<"1e-9", NDiv(NMul("1e-15", NVersin(hi)), NSub(NVersin(hi), NVersin(lo)))>>)

(*--- best-so-far scan of cut combinations ---------------------------------------*)
(* The optimiser visits combinations one after the other and keeps, for each     *)
(* energy bin, the index of the best one so far (0: none valid yet).             *)
Better(r, best) == IF NIsNan(r) THEN FALSE ELSE IF NIsNan(best) THEN TRUE ELSE NLt(r, best)
=============================================================================
