------------------------------ MODULE MCInterp ------------------------------
(***************************************************************************)
(* A grid grows point by point on a lattice; a target moves over the        *)
(* lattice of half steps inside and around it.                              *)
(***************************************************************************)
EXTENDS Interpolation, Json
CONSTANTS Side, MaxPoints, Emit
VARIABLES grid, tgt
vars == <<grid, tgt>>
Lattice == {<<a, b>> : a \in 0..Side, b \in 0..Side}
NoTarget == <<>>
Init == grid = <<>> /\ tgt = NoTarget
Before(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
AddPoint == /\ tgt = NoTarget /\ Len(grid) < MaxPoints
            /\ \E p \in Lattice : (IF Len(grid) = 0 THEN TRUE ELSE Before(grid[Len(grid)], p)) /\ grid' = Append(grid, p)
            /\ UNCHANGED tgt
Usable(g) == Len(g) >= 3 /\ \E i, j, k \in 1..Len(g) : (g[j][1] - g[i][1]) * (g[k][2] - g[i][2]) # (g[j][2] - g[i][2]) * (g[k][1] - g[i][1])
(* the target is given in half steps from -1 *)
Aim == /\ tgt = NoTarget /\ Usable(grid)
       /\ \E a \in {-2, 1, 2, 2 * Side + 1}, b \in {-1, 0, 2, 3, 2 * Side + 3} : tgt' = <<a, b>>
       /\ UNCHANGED grid
Next == AddPoint \/ Aim
Spec == Init /\ [][Next]_vars

P == grid
X == <<NHalf(tgt[1]), NHalf(tgt[2])>>
S == Simplices(P)
F == Facets(P)
G == [p |-> P, s |-> S, m |-> 1, order |-> [k \in 1..Len(P) |-> k], ord |-> 2]
Aimed == tgt # NoTarget
In == InGrid(P, S, X)
Aff(p) == NAdd("0.5", NSub(NMul("3", p[1]), NMul("7", p[2])))
Affine(cand) == NClose(Combine(cand, [i \in 1..Len(P) |-> Aff(P[i])]), Aff(X), "0", "1e-25")
SumsToOne(cand) == NClose(NSum(Ev([k \in 1..Len(cand) |-> cand[k].c])), "1", "0", "1e-25")
(* hull test independent of the triangulation: no facet separates the target *)
(* and every method gives an answer                                          *)
InsideOrVisible == Aimed => (In = (Visible(P, S, F, X) = {}))
EveryFacetOwned == Usable(grid) => \A f \in F : Owners(S, f) # {}
Answer == Aimed => \A m \in IF In THEN {"lin", "nn"} ELSE {"nsx", "ve", "nn"} :
    LET C == Candidates(G, m, X) IN C # {} /\ \A c \in C : SumsToOne(c) /\ (m # "nn" => Affine(c))
Convex == (Aimed /\ In) => \A c \in Candidates(G, "lin", X) : \A k \in 1..Len(c) : NGe(c[k].c, "0")
AtNode == (Aimed /\ \E i \in 1..Len(P) : NEq(P[i][1], X[1]) /\ NEq(P[i][2], X[2])) =>
    \A c \in Candidates(G, "lin", X) : \A k \in 1..Len(c) :
        NEq(c[k].c, IF NEq(P[c[k].i][1], X[1]) /\ NEq(P[c[k].i][2], X[2]) THEN "1" ELSE "0")
(* When the nearest point is a vertex, a facet behind it may be seen under a  *)
(* larger angle than the visible ones, but not if only one facet is visible.  *)
NearestIsVisible == (Aimed /\ ~In) => LET N == NearestFacets(P, F, X)  V == Visible(P, S, F, X) IN
    N # {} /\ (Cardinality(V) = 1 => N \cap V # {})
       /\ (\A f \in N : NearEnd(P, f, X) = 0 => f \in V)
OneVisible == (Aimed /\ ~In /\ Cardinality(Visible(P, S, F, X)) = 1) =>
    LET v == [i \in 1..Len(P) |-> i * i] IN
    \A c \in Candidates(G, "ve", X) : \E d \in Candidates(G, "nsx", X) : NClose(Combine(c, v), Combine(d, v), "0", "1e-25")
(* on a common border the enclosing simplices agree *)
Continuous == (Aimed /\ In /\ Cardinality(S) = Len(P) - 2 + (Len(P) - Cardinality(F))) =>
    LET v == [i \in 1..Len(P) |-> i * i] IN
    \A c, d \in Candidates(G, "lin", X) : NClose(Combine(c, v), Combine(d, v), "0", "1e-25")
Closest == Aimed => \A c \in Candidates(G, "nn", X) : \A i \in 1..Len(P) : NLe(Dist2(P[c[1].i], X), Dist2(P[i], X))
EmitBeh == (Emit /\ ~Aimed /\ Usable(grid)) => PrintT("BEH|" \o ToJson([grid |-> grid]))
=============================================================================
