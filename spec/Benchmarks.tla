----------------------------- MODULE Benchmarks -----------------------------
(***************************************************************************)
(* Resolution benchmarks per energy bin (pyirf.benchmarks).                 *)
(***************************************************************************)
EXTENDS Cuts

(* probability of a standard normal variable below -1, and between -1 and 1 *)
LowerSigma == "0.15865525393145705141476745436796207752"
UpperSigma == "0.84134474606854294858523254563203792248"
OneSigma   == "0.68268949213708589717046509126407584496"

MeanOf(s) == LET d == DropNan(s) IN IF Len(d) = 0 THEN "nan" ELSE NDiv(NSum(d), Len(d))
(* the functions a user may choose for bias and resolution *)
Stat(f, s) ==
    CASE f = "median" -> NanQuantile(s, "0.5")
      [] f = "mean"   -> MeanOf(s)
      [] f = "iqd"    -> NHalf(NSub(NanQuantile(s, UpperSigma), NanQuantile(s, LowerSigma)))
      [] f = "abs68"  -> NanQuantile(SMap(NAbs, s), OneSigma)
      [] f = "maxabs" -> LET d == SMap(NAbs, DropNan(s)) IN IF Len(d) = 0 THEN "nan" ELSE NMaxOf(d)
PerBin(parts, F(_)) == Ev([b \in 1..Len(parts) |-> IF Len(parts[b]) = 0 THEN "nan" ELSE F(parts[b])])

(*--- distribution of a binned density -----------------------------------------*)
(* prob: probability per bin; content below edge k                              *)
CumAtEdge(prob) == Ev([k \in 1..(Len(prob) + 1) |-> NSum(SubSeq(prob, 1, k - 1))])
CdfAt(x, edges, cum) == Interp(x, edges, cum)
(* smallest x with cdf(x) >= q *)
QuantileOfCdf(q, edges, cum) ==
    LET n == Len(edges) IN
    IF NGe(cum[1], q) THEN edges[1]
    ELSE IF NLt(cum[n], q) THEN edges[n]
    ELSE LET k == CHOOSE j \in 2..n : NGe(cum[j], q) /\ NLt(cum[j - 1], q)
         IN NAdd(edges[k - 1], NMul(NDiv(NSub(q, cum[k - 1]), NSub(cum[k], cum[k - 1])), NSub(edges[k], edges[k - 1])))
=============================================================================
