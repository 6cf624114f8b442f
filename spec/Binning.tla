------------------------------ MODULE Binning ------------------------------
(***************************************************************************)
(* Binned event tallies (pyirf.binning).                                    *)
(*                                                                         *)
(* Bins are given by an increasing sequence of edges; bin b covers          *)
(* edges[b] <= v < edges[b+1].  A histogram is a state machine: it starts   *)
(* empty and is filled event by event; the implementation computes the same *)
(* table in one vectorised call at any point of such a history.             *)
(***************************************************************************)
EXTENDS Units

NBins(edges) == Len(edges) - 1
Under == 0                               \* pseudo bin below the first edge
Over(edges) == Len(edges)                \* pseudo bin above the last edge

(* Half-open bin of v: Under, 1..NBins, or Over.  nan counts as overflow    *)
(* (it compares with nothing, "the last bin that is not excluded").         *)
BinOf(v, edges) ==
    IF NIsNan(v) THEN Over(edges)
    ELSE LET below == {j \in 1..Len(edges) : NLe(edges[j], v)}
         IN Cardinality(below)

(* numpy histograms close the last bin: v = last edge belongs to it *)
HistBinOf(v, edges) ==
    IF ~NIsNan(v) /\ NEq(v, edges[Len(edges)]) THEN NBins(edges) ELSE BinOf(v, edges)

Inside(b, edges) == b >= 1 /\ b <= NBins(edges)

(* When value and edges are expressed in different units the comparison     *)
(* needs a conversion, whose rounding may move a value across an edge that  *)
(* it equals to 15 digits: such a value may be counted on either side.      *)
NearEdge(v, edges) ==
    ~NIsNan(v) /\ \E j \in 1..Len(edges) :
        NIsFinite(edges[j]) /\ NClose(v, edges[j], "1e-14", "0")
Candidates(v, edges, exact, closed) ==
    LET b == IF closed THEN HistBinOf(v, edges) ELSE BinOf(v, edges)
    IN IF exact \/ ~NearEdge(v, edges) THEN {b}
       ELSE LET j == CHOOSE k \in 1..Len(edges) : NClose(v, edges[k], "1e-14", "0")
            IN {j - 1, j, b}

(* geometry *)
Center(edges, b) == NHalf(NAdd(edges[b], edges[b + 1]))
Widths(edges)    == SDiff(edges)

(***************************************************************************)
(* The histogram state machine.                                             *)
(* state: [edges, n, w, types, nt, wt]                                      *)
(*   n[b]  number of events in bin b, w[b] sum of their weights             *)
(*   types set of particle types seen (inside the binning or not),          *)
(*   nt[p][b], wt[p][b] the same per particle type                          *)
(***************************************************************************)
ZeroRow(edges) == [b \in 1..NBins(edges) |-> "0"]
ZeroCnt(edges) == [b \in 1..NBins(edges) |-> 0]

EmptyHist(edges) ==
    [ edges |-> edges, seen |-> 0, n |-> ZeroCnt(edges), w |-> ZeroRow(edges),
      types |-> {}, nt |-> <<>>, wt |-> <<>> ]

Bump(row, b, m)  == [row EXCEPT ![b] = @ + m]
Plus(row, b, x)  == [row EXCEPT ![b] = NAdd(@, x)]

(* m equal events e = [v, w, p] in bin b (p = "" when the table has no types) *)
FillMany(h, e, b, m) ==
    LET in  == Inside(b, h.edges)
        mw  == NMul(m, e.w)
        h1  == IF in THEN [h EXCEPT !.n = Bump(@, b, m), !.w = Plus(@, b, mw)] ELSE h
        new == e.p # "" /\ e.p \notin h.types
        nt0 == IF new THEN h1.nt @@ (e.p :> ZeroCnt(h.edges)) ELSE h1.nt
        wt0 == IF new THEN h1.wt @@ (e.p :> ZeroRow(h.edges)) ELSE h1.wt
        put == e.p # "" /\ in
    IN [h1 EXCEPT !.seen  = @ + m,
                  !.types = IF e.p = "" THEN @ ELSE @ \cup {e.p},
                  !.nt    = IF put THEN [nt0 EXCEPT ![e.p] = Bump(@, b, m)] ELSE nt0,
                  !.wt    = IF put THEN [wt0 EXCEPT ![e.p] = Plus(@, b, mw)] ELSE wt0]

FillTimes(h, e, m) == FillMany(h, e, HistBinOf(e.v, h.edges), m)
Fill(h, e) == FillTimes(h, e, 1)

RECURSIVE FillAll(_, _, _)
FillAll(h, s, k) == IF k > Len(s) THEN h ELSE FillAll(Ev(Fill(h, s[k])), s, k + 1)
RECURSIVE FillAllTimes(_, _, _)
FillAllTimes(h, s, k) == IF k > Len(s) THEN h ELSE FillAllTimes(Ev(FillTimes(h, s[k], s[k].m)), s, k + 1)
HistOfTimes(edges, s) == FillAllTimes(EmptyHist(edges), s, 1)
HistOf(edges, s) == FillAll(EmptyHist(edges), s, 1)

(* Design properties of the state machine, checked in MCBinning. *)
SumCnt(row) == LET RECURSIVE go(_)
                   go(k) == IF k = 0 THEN 0 ELSE row[k] + go(k - 1)
               IN go(Len(row))
Conserved(h, s) ==
    /\ SumCnt(h.n) = Cardinality({k \in 1..Len(s) : Inside(HistBinOf(s[k].v, h.edges), h.edges)})
    /\ SumCnt(h.n) <= h.seen
TypesPartition(h) ==
    h.types # {} =>
      \A b \in 1..NBins(h.edges) :
        /\ h.n[b] >= NToInt(NSumOver(h.types, LAMBDA p : h.nt[p][b]))
        /\ NLe("0", h.w[b])

(***************************************************************************)
(* Edge helpers.                                                            *)
(***************************************************************************)
Lo(edges) == SubSeq(edges, 1, Len(edges) - 1)
Hi(edges) == SubSeq(edges, 2, Len(edges))
(* edges agree up to a small part of their value or of the narrowest bin      *)
FiniteWidths(lo, hi) == {w \in {NAbs(NSub(hi[k], lo[k])) : k \in {j \in 1..Len(lo) : NIsFinite(lo[j]) /\ NIsFinite(hi[j])}} : NPos(w)}
Narrowest(lo, hi) == LET W == FiniteWidths(lo, hi) IN IF W = {} THEN "0" ELSE CHOOSE w \in W : \A x \in W : NLe(w, x)
JoinClose(lo, hi, k, rtol, wtol) == NClose(lo[k + 1], hi[k], rtol, NMul(wtol, Narrowest(lo, hi)))
JoinOK(lo, hi) == Len(lo) = Len(hi) /\ \A k \in 1..(Len(lo) - 1) : JoinClose(lo, hi, k, "1e-5", "1e-8")
Join(lo, hi) == lo \o <<hi[Len(hi)]>>

WithOverflow(edges, positive) ==
    LET low == IF positive THEN "0" ELSE "-inf"
        a   == IF NGt(edges[1], low) THEN <<low>> \o edges ELSE edges
    IN IF NLt(edges[Len(edges)], "inf") THEN a \o <<"inf">> ELSE a

(* exact rebinning: content of [a, b) when a, b are old edges or outside    *)
Knot(x, edges) == \/ \E j \in 1..Len(edges) : NEq(x, edges[j])
                  \/ NLe(x, edges[1]) \/ NGe(x, edges[Len(edges)])
CumAt(x, edges, data) ==    \* content below the knot x
    NSum(SubSeq(data, 1, Cardinality({j \in 2..Len(edges) : NLe(edges[j], x)})))
=============================================================================
