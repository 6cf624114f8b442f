---------------------------- MODULE Interpolation ----------------------------
(***************************************************************************)
(* Estimation of a table at a target point from tables known at the points  *)
(* of a grid (pyirf.interpolation).                                         *)
(*                                                                         *)
(* A grid is a sequence of points (sequences of one or two numbers).  A     *)
(* Delaunay triangulation is not unique when points lie on one circle;      *)
(* Simplices is the set of all simplices of all of them, and a statement    *)
(* about "the enclosing simplex" is required to hold for one of them.       *)
(*                                                                         *)
(* Every linear estimate is described by a candidate: a sequence of pairs   *)
(* [i, c] of a grid point and its coefficient.                              *)
(***************************************************************************)
EXTENDS Units

(*--- geometry ---------------------------------------------------------------*)
Cross(a, b, c) == NSub(NMul(NSub(b[1], a[1]), NSub(c[2], a[2])), NMul(NSub(b[2], a[2]), NSub(c[1], a[1])))
Dot(a, b, c)   == NAdd(NMul(NSub(b[1], a[1]), NSub(c[1], a[1])), NMul(NSub(b[2], a[2]), NSub(c[2], a[2])))
Sq(x) == NMul(x, x)
Dist2(a, b) == NSum(Ev([k \in 1..Len(a) |-> Sq(NSub(a[k], b[k]))]))
(* size of the grid, to make tolerances relative *)
Scale(P) == NMaxOf(Ev([k \in 1..Len(P[1]) |-> NSub(NMaxOf(Ev([i \in 1..Len(P) |-> P[i][k]])), NMinOf(Ev([i \in 1..Len(P) |-> P[i][k]])))]))

(* > 0 iff p lies inside the circle through a, b, c (times the orientation) *)
InCircle(p, a, b, c) ==
    LET ax == NSub(a[1], p[1]) ay == NSub(a[2], p[2]) a2 == NAdd(Sq(ax), Sq(ay))
        bx == NSub(b[1], p[1]) by == NSub(b[2], p[2]) b2 == NAdd(Sq(bx), Sq(by))
        cx == NSub(c[1], p[1]) cy == NSub(c[2], p[2]) c2 == NAdd(Sq(cx), Sq(cy))
        det == NAdd(NSub(NMul(ax, NSub(NMul(by, c2), NMul(b2, cy))), NMul(ay, NSub(NMul(bx, c2), NMul(b2, cx)))),
                    NMul(a2, NSub(NMul(bx, cy), NMul(by, cx))))
    IN IF NPos(Cross(a, b, c)) THEN det ELSE NNeg(det)

Rel == "1e-10"
Triangles(P) ==
    LET s2 == NMul(Sq(Scale(P)), Rel)  s4 == NMul(Sq(Sq(Scale(P))), Rel)  n == Len(P) IN
    {T \in {<<i, j, k>> : i \in 1..n, j \in 1..n, k \in 1..n} :
        /\ T[1] < T[2] /\ T[2] < T[3]
        /\ NGt(NAbs(Cross(P[T[1]], P[T[2]], P[T[3]])), s2)
        /\ \A p \in 1..n : p \in {T[1], T[2], T[3]} \/ NLe(InCircle(P[p], P[T[1]], P[T[2]], P[T[3]]), s4)}

(* 1D: indices of the points in ascending order *)
Ascending(P) == SetToSortSeq(1..Len(P), LAMBDA a, b : NLt(P[a][1], P[b][1]))
Segments(P) == LET o == Ascending(P) IN {<<o[k], o[k + 1]>> : k \in 1..(Len(o) - 1)}
Simplices(P) == IF Len(P[1]) = 1 THEN Segments(P) ELSE Triangles(P)

(* affine coordinates of x with respect to simplex s *)
Coef(P, s, x) ==
    IF Len(s) = 2
    THEN LET w == NDiv(NSub(x[1], P[s[1]][1]), NSub(P[s[2]][1], P[s[1]][1])) IN <<NSub("1", w), w>>
    ELSE LET a == P[s[1]] b == P[s[2]] c == P[s[3]]  A == Cross(a, b, c) IN
         Ev(<<NDiv(Cross(x, b, c), A), NDiv(Cross(a, x, c), A), NDiv(Cross(a, b, x), A)>>)
Pairs(P, s, x) == LET c == Coef(P, s, x) IN Ev([k \in 1..Len(s) |-> [i |-> s[k], c |-> c[k]]])
Encloses(P, s, x) == LET c == Coef(P, s, x) IN \A k \in 1..Len(c) : NGe(c[k], "-1e-9")
Enclosing(P, S, x) == {s \in S : Encloses(P, s, x)}
InGrid(P, S, x) == Enclosing(P, S, x) # {}

(*--- hull facets -------------------------------------------------------------*)
Between(a, b, p) == NPos(Dot(p, a, b)) = FALSE            \* the projection of p lies between a and b
Facets(P) ==
    LET tol == NMul(Sq(Scale(P)), Rel)  n == Len(P) IN
    {f \in {<<i, j>> : i \in 1..n, j \in 1..n} :
        /\ f[1] < f[2]
        /\ \/ \A p \in 1..n : NGe(Cross(P[f[1]], P[f[2]], P[p]), NNeg(tol))
           \/ \A p \in 1..n : NLe(Cross(P[f[1]], P[f[2]], P[p]), tol)
        /\ \A p \in (1..n) \ {f[1], f[2]} :
              ~(NLe(NAbs(Cross(P[f[1]], P[f[2]], P[p])), tol) /\ Between(P[f[1]], P[f[2]], P[p]))}
Owners(S, f) == {s \in S : {f[1], f[2]} \subseteq {s[1], s[2], s[3]}}
(* nearest point of a facet: its position along the facet, clamped to the ends *)
FootPos(P, f, x) == NMax("0", NMin("1", NDiv(Dot(P[f[1]], P[f[2]], x), Dist2(P[f[1]], P[f[2]]))))
FacetDist(P, f, x) ==
    LET a == P[f[1]] b == P[f[2]] t == FootPos(P, f, x) IN
    NSqrt(Dist2(x, <<NAdd(a[1], NMul(t, NSub(b[1], a[1]))), NAdd(a[2], NMul(t, NSub(b[2], a[2])))>>))
(* angle under which the facet is seen *)
FacetAngle(P, f, x) == NAtan2(NAbs(Cross(x, P[f[1]], P[f[2]])), Dot(x, P[f[1]], P[f[2]]))
(* the end of the facet that is nearest to x, or 0 *)
NearEnd(P, f, x) == LET t == FootPos(P, f, x) IN
    IF NLe(t, "1e-7") THEN f[1] ELSE IF NGe(t, "0.9999999") THEN f[2] ELSE 0
(* nearest facets; of those that meet in the nearest point the one seen under *)
(* the largest angle                                                          *)
NearestFacets(P, F, x) ==
    LET d == Ev([f \in F |-> FacetDist(P, f, x)])
        m == NMinOf(Ev(SetToSeq({d[f] : f \in F})))
        C == {f \in F : NClose(d[f], m, "1e-9", "0")}
    IN {f \in C : ~\E g \in C : /\ NearEnd(P, f, x) # 0 /\ NearEnd(P, f, x) = NearEnd(P, g, x)
                               /\ NGt(FacetAngle(P, g, x), NAdd(FacetAngle(P, f, x), "1e-7"))}
Visible(P, S, F, x) ==
    {f \in F : \E s \in Owners(S, f) :
        LET o == CHOOSE p \in {s[1], s[2], s[3]} : p \notin {f[1], f[2]}
            in == Cross(P[f[1]], P[f[2]], P[o])
            at == Cross(P[f[1]], P[f[2]], x)
        IN NLt(IF NPos(in) THEN at ELSE NNeg(at), NMul("-1e-11", NSqrt(NMul(Dist2(P[f[1]], P[f[2]]), Dist2(P[f[1]], x)))))}

(*--- candidates ----------------------------------------------------------------*)
(* nearest simplices to an x outside of the hull *)
NearestSimplices(P, S, x) ==
    IF Len(P[1]) = 1
    THEN LET o == Ascending(P) n == Len(o) IN
         IF NLt(x[1], P[o[1]][1]) THEN {<<o[1], o[2]>>} ELSE {<<o[n - 1], o[n]>>}
    ELSE UNION {Owners(S, f) : f \in NearestFacets(P, Facets(P), x)}
RECURSIVE OwnerChoices(_, _)     \* one owner for each facet, as sequences
OwnerChoices(S, fs) == IF fs = <<>> THEN {<<>>} ELSE {<<o>> \o r : o \in Owners(S, fs[1]), r \in OwnerChoices(S, Tail(fs))}
Blend(P, S, F, m, x) ==
    LET vs == SetToSeq(Visible(P, S, F, x))
        w  == Ev([k \in 1..Len(vs) |-> NPow(FacetAngle(P, vs[k], x), m + 1)])
        W  == NSum(w)
    IN {FlattenSeq(Ev([k \in 1..Len(vs) |-> LET q == Pairs(P, ch[k], x) IN
            [j \in 1..3 |-> [i |-> q[j].i, c |-> NMul(NDiv(w[k], W), q[j].c)]]])) : ch \in OwnerChoices(S, vs)}
(* distance to the power p *)
NormP(a, b, p) == NSum(Ev([k \in 1..Len(a) |-> NPow(NAbs(NSub(a[k], b[k])), p)]))
Dyadic(P, x) == \A i \in 1..Len(P) : \A k \in 1..Len(x) : NIsInt(NMul(P[i][k], "16")) /\ NIsInt(NMul(x[k], "16"))
(* order: the sequence in which the points count as first *)
Nearest(P, order, p, x) ==
    LET d == Ev([i \in 1..Len(P) |-> NormP(P[i], x, p)])
        m == NMinOf(d)
        C == {k \in 1..Len(order) : NClose(d[order[k]], m, "1e-12", "0")}
    IN {order[k] : k \in IF Dyadic(P, x) THEN {CHOOSE k \in C : \A j \in C : k <= j} ELSE C}

(* the points at the smallest Euclidean distance, all of them when several tie *)
ClosestNodes(P, x) ==
    LET d == Ev([i \in 1..Len(P) |-> NormP(P[i], x, 2)])
        m == NMinOf(d)
    IN {i \in 1..Len(P) : NClose(d[i], m, "1e-12", "0")}

Candidates(G, method, x) ==
    CASE method = "lin" -> {Pairs(G.p, s, x) : s \in Enclosing(G.p, G.s, x)}
      [] method = "nsx" -> {Pairs(G.p, s, x) : s \in NearestSimplices(G.p, G.s, x)}
      [] method = "ve"  -> IF Len(G.p[1]) = 1 THEN {Pairs(G.p, s, x) : s \in NearestSimplices(G.p, G.s, x)}
                           ELSE LET F == Facets(G.p) IN
                                Blend(G.p, G.s, F, G.m, x) \cup
                                (* one visible simplex: defined as the nearest simplex extrapolation *)
                                (IF Cardinality(Visible(G.p, G.s, F, x)) > 1 THEN {}
                                 ELSE {Pairs(G.p, s, x) : s \in NearestSimplices(G.p, G.s, x)})
      [] method = "nn"  -> {<<[i |-> i, c |-> "1"]>> : i \in Nearest(G.p, G.order, G.ord, x)}

(* estimate of a number given as a sequence over the grid *)
Combine(cand, v) == NSum(Ev([k \in 1..Len(cand) |-> NMul(cand[k].c, v[cand[k].i])]))
Weight(cand) == NSum(Ev([k \in 1..Len(cand) |-> NAbs(cand[k].c)]))

(*--- tables: lines along an axis of a row-major array --------------------------*)
RECURSIVE Size(_)
Size(sh) == IF sh = <<>> THEN 1 ELSE sh[1] * Size(Tail(sh))
Stride(sh, ax) == Size(SubSeq(sh, ax + 1, Len(sh)))
(* positions (from 0) of the first element of each line along axis ax *)
Lines(sh, ax) == {q \in 0..(Size(sh) - 1) : (q \div Stride(sh, ax)) % sh[ax] = 0}
Line(v, sh, ax, b) == Ev([k \in 1..sh[ax] |-> v[b + (k - 1) * Stride(sh, ax) + 1]])

(*--- discrete PDFs --------------------------------------------------------------*)
BinSize(E, norm) == IF norm = "cone" THEN Ev([k \in 1..(Len(E) - 1) |-> NMul(NMul("2", NPi), NSub(NVersin(E[k + 1]), NVersin(E[k])))])
                    ELSE SDiff(E)
Mids(E) == Ev([k \in 1..(Len(E) - 1) |-> NHalf(NAdd(E[k], E[k + 1]))])
Mean(f, w, x) == LET p == Ev([k \in 1..Len(f) |-> NMul(f[k], w[k])]) IN NDiv(NDot(p, x), NSum(p))
Std(f, w, E, x) ==
    LET nz == {k \in 1..Len(f) : ~NEq(f[k], "0")} IN
    IF Cardinality(nz) = 1
    THEN LET k == CHOOSE j \in nz : TRUE IN NDiv(NSub(E[k + 1], E[k]), NSqrt("12"))
    ELSE LET mu == Mean(f, w, x)
             p == Ev([k \in 1..Len(f) |-> NMul(f[k], w[k])])
             d == Ev([k \in 1..Len(f) |-> Sq(NSub(x[k], mu))])
         IN NSqrt(NDiv(NDot(p, d), NSum(p)))
Empty(f) == \A k \in 1..Len(f) : NEq(f[k], "0")
Normed(f, w) == LET n == NDot(f, w) IN IF NEq(n, "0") THEN f ELSE Ev([k \in 1..Len(f) |-> NDiv(f[k], n)])

(* height of the histogram at y (right-open bins); unclear if y is at an edge *)
At(f, E, y) ==
    LET span == NSub(E[Len(E)], E[1]) IN
    IF \E k \in 1..Len(E) : NClose(y, E[k], "0", NMul(span, "1e-9")) THEN "nan"
    ELSE IF NLt(y, E[1]) \/ NGt(y, E[Len(E)]) THEN "0"
    ELSE f[CHOOSE k \in 1..Len(f) : NLe(E[k], y) /\ NLt(y, E[k + 1])]

(* Moment morphing of the templates F (aligned with cand): the sum of the      *)
(* templates shifted and scaled to the combined mean and standard deviation.   *)
(* Not normalised; nan where the height is taken at an edge.                   *)
Morph(cand, F, E, norm) ==
    LET x == Mids(E)  w == BinSize(E, norm)  n == Len(cand)
        mu == Ev([k \in 1..n |-> Mean(F[k], w, x)])
        sg == Ev([k \in 1..n |-> Std(F[k], w, E, x)])
        c  == [k \in 1..n |-> cand[k].c]
        M  == NDot(c, mu)  S == NDot(c, sg)
        a  == Ev([k \in 1..n |-> NDiv(sg[k], S)])
        b  == Ev([k \in 1..n |-> NSub(mu[k], NMul(M, a[k]))])
    IN [mean |-> M, std |-> S,
        f |-> Ev([j \in 1..Len(x) |-> NSum(Ev([k \in 1..n |->
                 NMul(NMul(c[k], a[k]), At(F[k], E, NAdd(NMul(a[k], x[j]), b[k])))]))])]

(* quantile of a histogram, uniform inside the bins *)
Cum(f, w) == Ev([k \in 1..(Len(f) + 1) |-> NDiv(NSum(Ev([j \in 1..(k - 1) |-> NMul(f[j], w[j])])), NDot(f, w))])
HistQuantile(f, w, E, q) ==
    LET C == Cum(f, w)
        k == CHOOSE j \in 1..Len(f) : NLe(C[j], q) /\ NGe(C[j + 1], q) /\ NGt(C[j + 1], C[j])
    IN NAdd(E[k], NMul(NSub(E[k + 1], E[k]), NDiv(NSub(q, C[k]), NSub(C[k + 1], C[k]))))

(* Quantile interpolation as published, with quantiles q: the cumulative       *)
(* distribution is known at the middle of the bins, starting with an empty bin *)
(* before the first; the quantile function is linear between the last point at *)
(* zero, the first point of every other level and the first point at one.      *)
(* The density between neighbouring quantiles, linear in between and zero      *)
(* beyond the outermost, is taken at the lower edges of the bins.              *)
PpfNodes(f, w, E) ==
    LET n == Len(f)  tot == NDot(f, w)
        m == Ev(Mids(<<NSub(E[1], NSub(E[2], E[1]))>> \o E))
        c == Ev([k \in 1..(n + 1) |-> NDiv(NSum(Ev([j \in 1..(k - 1) |-> NMul(f[j], w[j])])), tot)])
        z(k) == NEq(f[k], "0")               \* bin k is empty: points k and k + 1 have the same level
        pos == {k \in 1..n : ~z(k)}
        first == CHOOSE k \in pos : \A j \in pos : k <= j
        kept == SelectSeq([k \in 1..(n + 1) |-> k], LAMBDA k : k >= first /\ (k = first \/ ~z(k - 1)))
    IN [x |-> Ev([j \in 1..Len(kept) |-> m[kept[j]]]), c |-> Ev([j \in 1..Len(kept) |-> c[kept[j]]])]
Levels(n) == Ev([k \in 1..n |-> NDiv(k - 1, n - 1)])
Ppf(f, w, E, qs) ==
    LET N == PpfNodes(f, w, E)  l == Len(N.c) IN
    Ev([k \in 1..Len(qs) |->
        LET j == CHOOSE i \in 1..(l - 1) : NLe(qs[k], N.c[i + 1]) /\ (i = 1 \/ NGt(qs[k], N.c[i])) IN
        IF NEq(qs[k], "1") THEN N.x[l]
        ELSE NAdd(N.x[j], NDiv(NMul(NSub(qs[k], N.c[j]), NSub(N.x[j + 1], N.x[j])), NSub(N.c[j + 1], N.c[j])))])
QuantileBlend(cand, F, w, E, n) ==
    LET qs == Levels(n)
        P  == Ev([k \in 1..Len(cand) |-> Ppf(F[k], w, E, qs)])
        p  == Ev([j \in 1..n |-> NSum(Ev([k \in 1..Len(cand) |-> NMul(cand[k].c, P[k][j])]))])
        x  == Mids(p)
        d  == Ev([j \in 1..(n - 1) |-> NDiv(NDiv("1", n - 1), NSub(p[j + 1], p[j]))])
        span == NSub(E[Len(E)], E[1])
        At1(y) == IF NClose(y, x[1], "0", NMul(span, "1e-9")) \/ NClose(y, x[n - 1], "0", NMul(span, "1e-9")) THEN "nan"
                  ELSE IF NLt(y, x[1]) \/ NGt(y, x[n - 1]) THEN "0"
                  ELSE Interp(y, x, d)
        v  == Ev([k \in 1..(Len(E) - 1) |-> At1(E[k])])
        r  == Ev([k \in 1..(Len(E) - 1) |-> NMul(v[k], NSub(E[k + 1], E[k]))])
        t  == NSum(r)
    IN IF \E k \in 1..Len(v) : NIsNan(v[k]) THEN [clear |-> FALSE, f |-> v]
       ELSE [clear |-> TRUE, f |-> IF NEq(t, "0") THEN v ELSE Ev([k \in 1..Len(v) |-> NDiv(r[k], NMul(t, w[k]))])]
=============================================================================
