------------------------------- MODULE MCMorph -------------------------------
(* Two histograms are filled bin by bin; then they are morphed.               *)
EXTENDS Interpolation, Json
CONSTANTS NB, MaxH, Emit
VARIABLES f, g
vars == <<f, g>>
Init == f = <<>> /\ g = <<>>
Next == \/ Len(f) < NB /\ \E h \in 0..MaxH : f' = Append(f, h) /\ UNCHANGED g
        \/ Len(f) = NB /\ Len(g) < NB /\ \E h \in 0..MaxH : g' = Append(g, h) /\ UNCHANGED f
Spec == Init /\ [][Next]_vars
Done == Len(g) = NB
Full == Done /\ ~Empty(f) /\ ~Empty(g)
E == Ev([k \in 1..(NB + 1) |-> k - 1])
V == Ev([k \in 1..(NB + 1) |-> NDiv(k * k, "4")])          \* bins of different width
W(e, norm) == BinSize(e, norm)
C(t) == <<[i |-> 1, c |-> NSub("1", t)], [i |-> 2, c |-> t]>>
N(h, e, norm) == Normed(h, W(e, norm))
Same(a, b) == \A k \in 1..NB : NIsNan(a[k]) \/ NClose(a[k], b[k], "0", "1e-25")
HasNan(a) == \E k \in 1..Len(a) : NIsNan(a[k])
(* at a grid point the morphed histogram is the template *)
AtTemplates == Full => \A norm \in {"area", "cone"} :
    LET e == IF norm = "area" THEN V ELSE SScale(V, "0.1") IN
    /\ Same(Morph(C("0"), <<f, g>>, e, norm).f, f)
    /\ Same(Morph(C("1"), <<f, g>>, e, norm).f, g)
(* identical templates stay *)
Fixed == Full /\ f = g => Same(Morph(C("0.375"), <<f, g>>, E, "area").f, f)
(* mean and deviation of the estimate are the combined ones *)
Moments == Full => LET m == Morph(C("0.25"), <<f, g>>, E, "area")  x == Mids(E)  w == SDiff(E) IN
    /\ NClose(m.mean, NAdd(NMul("0.75", Mean(f, w, x)), NMul("0.25", Mean(g, w, x))), "0", "1e-25")
    /\ NPos(m.std)
(* a histogram shifted by two bins: half way it is shifted by one *)
Shift == (Full /\ \A k \in 1..NB : g[k] = IF k <= 2 THEN 0 ELSE f[k - 2]) =>
    (f[NB] = 0 /\ f[NB - 1] = 0 =>
       Same(Morph(C("0.5"), <<f, g>>, E, "area").f, [k \in 1..NB |-> IF k = 1 THEN 0 ELSE f[k - 1]]))
(* quantiles are monotone and invert the cumulative content *)
Qs == <<"0.1", "0.25", "0.5", "0.75", "0.9">>
Quantiles == Full => LET w == SDiff(V) q == Ev([k \in 1..5 |-> HistQuantile(f, w, V, Qs[k])]) IN
    /\ \A k \in 1..4 : NLe(q[k], q[k + 1])
    /\ \A k \in 1..5 : NLe(V[1], q[k]) /\ NLe(q[k], V[NB + 1])
(* the published construction, with ten levels of quantiles *)
QB(c, h, k, e, norm) == QuantileBlend(c, <<h, k>>, W(e, norm), e, 10)
QuantileLaws == Full => \A norm \in {"area", "cone"} :
    LET e == IF norm = "area" THEN V ELSE SScale(V, "0.1")
        p == Ppf(f, W(e, norm), e, Levels(10))
        N1 == PpfNodes(f, W(e, norm), e)
        a == QB(C("0.25"), f, g, e, norm)  b == QB(C("0.75"), g, f, e, norm)
    IN /\ \A k \in 1..9 : NLt(p[k], p[k + 1])
       /\ NEq(N1.c[1], "0") /\ NClose(N1.c[Len(N1.c)], "1", "1e-30", "0")
       /\ \A k \in 1..(Len(N1.c) - 1) : NLt(N1.c[k], N1.c[k + 1])
       /\ a.clear = b.clear
       /\ a.clear => /\ \A k \in 1..NB : NNonNeg(a.f[k]) /\ NClose(a.f[k], b.f[k], "1e-20", "0")
                     /\ Empty(a.f) \/ NClose(NDot(a.f, W(e, norm)), "1", "1e-25", "0")
(* a histogram shifted by two bins: half way it is the one shifted by one *)
QuantileShift == (Full /\ \A k \in 1..NB : g[k] = IF k <= 2 THEN 0 ELSE f[k - 2]) =>
    (f[NB] = 0 /\ f[NB - 1] = 0 =>
       LET h == Ev([k \in 1..NB |-> IF k = 1 THEN 0 ELSE f[k - 1]])
           a == QB(C("0.5"), f, g, E, "area")  b == QB(C("0"), h, h, E, "area")
       IN a.clear /\ b.clear => \A k \in 1..NB : NClose(a.f[k], b.f[k], "0", "1e-25"))
EmitBeh == (Emit /\ Full) => PrintT("BEH|" \o ToJson([f |-> f, g |-> g]))
=============================================================================
