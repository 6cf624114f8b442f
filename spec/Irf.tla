-------------------------------- MODULE Irf --------------------------------
(***************************************************************************)
(* Instrument response tables as tallies over a grid of cells (pyirf.irf).  *)
(*                                                                         *)
(* A tally is a state machine: it starts empty and is filled with events,   *)
(* each falling in one cell of the product of the axes or in none.  Every   *)
(* IRF is a function of the tally reached; the implementation computes it   *)
(* in one call at any point of the history.                                 *)
(*                                                                         *)
(* axes: sequence of edge sequences.  Cells are numbered in row-major order *)
(* (last axis fastest), starting with 1.                                    *)
(***************************************************************************)
EXTENDS Simulation

Dims(axes)  == [k \in 1..Len(axes) |-> NBins(axes[k])]
RECURSIVE Prod(_, _)
Prod(s, k) == IF k > Len(s) THEN 1 ELSE s[k] * Prod(s, k + 1)      \* s[k] * ... * s[n]
NCells(axes) == Prod(Dims(axes), 1)
(* cell from its bin numbers (from 1), 0 if one of them is outside *)
RECURSIVE Flat(_, _, _)
Flat(b, d, k) == IF k > Len(b) THEN 1 ELSE (b[k] - 1) * Prod(d, k + 1) + Flat(b, d, k + 1)
CellOf(x, axes) ==
    LET b == [k \in 1..Len(axes) |-> HistBinOf(x[k], axes[k])] IN
    IF \E k \in 1..Len(axes) : ~Inside(b[k], axes[k]) THEN 0 ELSE Flat(b, Dims(axes), 1)

EmptyTally(axes) == [axes |-> axes, seen |-> 0, n |-> [c \in 1..NCells(axes) |-> 0], w |-> [c \in 1..NCells(axes) |-> "0"]]
FillTally(T, x, w) ==
    LET c == CellOf(x, T.axes) IN
    IF c = 0 THEN [T EXCEPT !.seen = @ + 1]
    ELSE [T EXCEPT !.seen = @ + 1, !.n = [T.n EXCEPT ![c] = @ + 1], !.w = [T.w EXCEPT ![c] = NAdd(@, w)]]
RECURSIVE SumN(_, _)
SumN(f, S) == IF S = {} THEN 0 ELSE LET c == CHOOSE c \in S : TRUE IN f[c] + SumN(f, S \ {c})
(* many events at once, and the sum of two tallies *)
FillRowsTimes(T, xs, ws, ts) ==      \* row k is there ts[k] times
    LET cs == Ev([k \in 1..Len(xs) |-> CellOf(xs[k], T.axes)]) IN
    Ev([T EXCEPT !.seen = @ + NToInt(NSumOver(1..Len(ts), LAMBDA k : ts[k])),
              !.n = [c \in 1..Len(T.n) |-> LET K == {k \in 1..Len(cs) : cs[k] = c} IN IF K = {} THEN T.n[c] ELSE T.n[c] + NToInt(NSumOver(K, LAMBDA k : ts[k]))],
              !.w = [c \in 1..Len(T.w) |-> LET K == {k \in 1..Len(cs) : cs[k] = c} IN
                       IF K = {} THEN T.w[c] ELSE NAdd(T.w[c], NSumOver(K, LAMBDA k : NMul(ts[k], ws[k])))]])
FillRows(T, xs, ws) == FillRowsTimes(T, xs, ws, [k \in 1..Len(xs) |-> 1])
Merge(S, T) == [S EXCEPT !.seen = @ + T.seen, !.n = [c \in 1..Len(S.n) |-> S.n[c] + T.n[c]],
                         !.w = [c \in 1..Len(S.w) |-> NAdd(S.w[c], T.w[c])]]


(* three axes: cell (a, b, c), and the tally summed over the second or third *)
C3(T, a, b, c) == Flat(<<a, b, c>>, Dims(T.axes), 1)
N3(T, a, b, c) == T.n[C3(T, a, b, c)]
Over2(T, a, c) == SumN(T.n, {C3(T, a, b, c) : b \in 1..NBins(T.axes[2])})
Over3(T, a, b) == SumN(T.n, {C3(T, a, b, c) : c \in 1..NBins(T.axes[3])})
Width(edges, b) == NSub(edges[b + 1], edges[b])

(*--- the tables; every one is indexed like the tally -----------------------*)
Cells3(T) == (1..NBins(T.axes[1])) \X (1..NBins(T.axes[2])) \X (1..NBins(T.axes[3]))
(* (true energy, migration, offset): probability density in migration        *)
Dispersion(T, a, m, f) ==
    LET n == Over2(T, a, f) IN
    IF n = 0 THEN "0" ELSE NDiv(NDiv(N3(T, a, m, f), n), Width(T.axes[2], m))
(* (true energy, reco energy, offset): probability                            *)
Migration(T, a, m, f) ==
    LET n == Over2(T, a, f) IN IF n = 0 THEN "0" ELSE NDiv(N3(T, a, m, f), n)
(* (true energy, offset, source offset): probability per solid angle          *)
Psf(T, a, f, s) ==
    LET n == Over3(T, a, f) IN
    IF n = 0 THEN "0" ELSE NDiv(NDiv(N3(T, a, f, s), n), SolidRing(T.axes[3][s], T.axes[3][s + 1]))

(* simulated area *)
Area(info) == NMul(NPi, NPow(info.impact, 2))
EffArea(n, nsim, area) == NMul(NDiv(n, nsim), area)

(*--- judging doubles --------------------------------------------------------*)
Info(r) == [n |-> r.n, emin |-> QX(r.emin), emax |-> QX(r.emax), index |-> r.index, impact |-> QX(r.impact),
            vmin |-> QX(r.vmin), vmax |-> QX(r.vmax)]
FovTol(info) == NAdd("1e-10", NDiv("1e-15", RingVersin(info.vmin, info.vmax)))

(* solid angle of a ring of doubles *)
RingTol(a, b) == NAdd("1e-9", NDiv(NMul("1e-15", NVersin(b)), NSub(NVersin(b), NVersin(a))))
RectTol(a, b) == NAdd("1e-9", NDiv("1e-15", NAbs(NSub(NSin(b), NSin(a)))))

(* x = n / nsim * area for an expectation nsim known up to tol (absolute);     *)
(* nothing is said about a bin in which nothing was simulated                  *)
EffOK(x, n, nsim, tol, area) ==
    \/ NLe(nsim, NMul(tol, "1e3"))
    \/ n = 0 /\ NEq(x, "0")
    \/ n > 0 /\ NClose(NMul(x, nsim), NMul(n, area), "1e-8", NMul(x, tol))
=============================================================================
