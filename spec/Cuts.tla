-------------------------------- MODULE Cuts --------------------------------
(***************************************************************************)
(* Binned cuts (pyirf.cuts): percentiles per bin, evaluation, comparison.   *)
(***************************************************************************)
EXTENDS Binning

(* values of the events whose bin value lies in bin b, in order *)
BinsOf(bvals, edges) == Ev([k \in 1..Len(bvals) |-> BinOf(bvals[k], edges)])
InBinI(vals, bidx, b) ==
    LET idx == SelectSeq([k \in 1..Len(vals) |-> k], LAMBDA k : bidx[k] = b)
    IN Ev([k \in 1..Len(idx) |-> vals[idx[k]]])
InBin(vals, bvals, edges, b) == InBinI(vals, BinsOf(bvals, edges), b)

Clip(x, lo, hi) ==          \* limits are "none" when not given
    LET a == IF lo = "none" \/ NIsNan(x) THEN x ELSE NMax(x, lo)
    IN IF hi = "none" \/ NIsNan(x) THEN a ELSE NMin(a, hi)

(* quantile of a sample in which value k is there ts[k] times *)
NanQuantileTimes(vs, ts, q) ==
    LET K == {k \in 1..Len(vs) : ~NIsNan(vs[k])}
        Upto(x) == NSumOver({k \in K : NLe(vs[k], x)}, LAMBDA k : ts[k])
        Below(x) == NSumOver({k \in K : NLt(vs[k], x)}, LAMBDA k : ts[k])
        pos == NMul(q, NSub(NSumOver(K, LAMBDA k : ts[k]), "1"))
        lo == NFloor(pos)
        Nth(j) == vs[CHOOSE k \in K : NLe(Below(vs[k]), j) /\ NLt(j, Upto(vs[k]))]
    IN IF K = {} THEN "nan"
       ELSE IF NEq(lo, pos) THEN Nth(lo)
       ELSE NAdd(Nth(lo), NMul(NSub(pos, lo), NSub(Nth(NAdd(lo, "1")), Nth(lo))))
BinCutTimes(vs, ts, q, fill, lo, hi, minEvents) ==
    LET n == NSumOver(1..Len(ts), LAMBDA k : ts[k]) IN
    IF NEq(n, "0") \/ NLt(n, minEvents) THEN fill
    ELSE Clip(NanQuantileTimes(vs, ts, q), lo, hi)

(* the cut of one bin: fill value if there are too few events *)
BinCut(vs, q, fill, lo, hi, minEvents) ==
    IF Len(vs) = 0 \/ Len(vs) < minEvents THEN fill
    ELSE Clip(NanQuantile(vs, q), lo, hi)

(* cuts of all bins for one fraction q in [0, 1], before smoothing *)
RawCutsOf(parts, q, fill, lo, hi, minEvents) ==
    Ev([b \in 1..Len(parts) |-> BinCut(parts[b], q, fill, lo, hi, minEvents)])
Parts(vals, bidx, n) == Ev([b \in 1..n |-> InBinI(vals, bidx, b)])
RawCuts(vals, bvals, edges, q, fill, lo, hi, minEvents) ==
    RawCutsOf(Parts(vals, BinsOf(bvals, edges), NBins(edges)), q, fill, lo, hi, minEvents)

(* Gaussian filter along the bins: kernel cut at 4 sigma, normalised, the   *)
(* outermost values continue beyond the ends.                              *)
Radius(sigma) == NToInt(NFloor(NAdd(NMul("4", sigma), "0.5")))
Kernel(sigma) ==
    LET r == Radius(sigma)
        w == [k \in 0..r |-> NExp(NNeg(NDiv(NMul(k, k), NMul("2", NMul(sigma, sigma)))))]
        tot == NAdd(w[0], NMul("2", NSumOver(1..r, LAMBDA k : w[k])))
    IN Ev([k \in 0..r |-> NDiv(w[k], tot)])
At(row, k) == row[IF k < 1 THEN 1 ELSE IF k > Len(row) THEN Len(row) ELSE k]
Smooth(row, sigma) ==
    IF sigma = "none" THEN row
    ELSE LET ker == Kernel(sigma) r == Radius(sigma)
         IN Ev([b \in 1..Len(row) |->
              NSumOver((-r)..r, LAMBDA k : NMul(ker[IF k < 0 THEN -k ELSE k], At(row, b + k)))])

(* comparison operators *)
OpHolds(op, v, c) ==
    CASE op = "ge" -> NGe(v, c) [] op = "gt" -> NGt(v, c)
      [] op = "le" -> NLe(v, c) [] op = "lt" -> NLt(v, c)

(* does the cut table (edges, cuts) select an event? *)
Selected(v, bv, edges, cuts, op) ==
    LET b == BinOf(bv, edges) IN Inside(b, edges) /\ OpHolds(op, v, cuts[b])
=============================================================================
