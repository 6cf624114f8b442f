----------------------------- MODULE MCBinning -----------------------------
(***************************************************************************)
(* Exhaustive model of filling a histogram: every edge sequence of a small  *)
(* family, every sequence of at most MaxEvents events with values on, just  *)
(* between and outside the edges, two weights and two particle types.       *)
(* Values are half-integers (doubled) so that TLC enumerates integers; the  *)
(* decimal numbers of Binning.tla are obtained by halving.                  *)
(***************************************************************************)
EXTENDS Binning, Json

CONSTANTS MaxEvents, Emit

EdgeSets == { <<0, 4>>, <<0, 2, 4>>, <<0, 2, 6>>, <<-2, 0, 2, 6>>, <<0, 4, 6>> }
Values   == {-3, 0, 1, 2, 4, 5, 6, 7}
Kinds    == { [w |-> 1, p |-> "a"], [w |-> 3, p |-> "b"] }

VARIABLES edges2, evs, h
vars == <<edges2, evs, h>>

Half(x) == NDiv(x, 2)
EdgesOf(e) == SMap(Half, e)
Event(x, k) == [v |-> Half(x), w |-> Half(k.w), p |-> k.p]

Init == /\ edges2 \in EdgeSets
        /\ evs = <<>>
        /\ h = EmptyHist(EdgesOf(edges2))

Next == /\ Len(evs) < MaxEvents
        /\ \E x \in Values, k \in Kinds :
             /\ evs' = Append(evs, [x |-> x, w |-> k.w, p |-> k.p])
             /\ h' = Ev(Fill(h, Event(x, k)))
        /\ UNCHANGED edges2

Spec == Init /\ [][Next]_vars

AsEvents(s) == [j \in 1..Len(s) |-> Event(s[j].x, s[j])]

(* --- design properties ------------------------------------------------ *)
(* each value is in exactly one of under / bin / over, and bins are half-open *)
BinLaw == \A x \in Values :
    LET E == EdgesOf(edges2)
        b == BinOf(Half(x), E)
    IN /\ b \in 0..Len(E)
       /\ Inside(b, E) <=> (NLe(E[1], Half(x)) /\ NLt(Half(x), E[Len(E)]))
       /\ Inside(b, E) => NLe(E[b], Half(x)) /\ NLt(Half(x), E[b + 1])
       /\ b = Under <=> NLt(Half(x), E[1])
NanIsOverflow == BinOf("nan", EdgesOf(edges2)) = Over(EdgesOf(edges2))
Conservation == Conserved(h, AsEvents(evs))
TypeSums == TypesPartition(h) /\
    \A b \in 1..NBins(h.edges) : h.types # {} =>
       /\ NEq(h.n[b], NSumOver(h.types, LAMBDA p : h.nt[p][b]))
       /\ NEq(h.w[b], NSumOver(h.types, LAMBDA p : h.wt[p][b]))
(* the table does not depend on the order of filling *)
OrderFree == Len(evs) > 1 =>
    LET rev == [j \in 1..Len(evs) |-> evs[Len(evs) + 1 - j]]
        g == HistOf(h.edges, AsEvents(rev))
    IN g.n = h.n /\ \A b \in 1..NBins(h.edges) : NEq(g.w[b], h.w[b])
(* m equal events at once are m events *)
TimesLaw == \A x \in Values, k \in Kinds : LET e == Event(x, k) IN
    /\ FillTimes(h, e, 3) = Fill(Fill(Fill(h, e), e), e)
(* merging two adjacent bins adds their contents *)
MergeLaw == Len(h.edges) > 2 =>
    LET E == h.edges
        M == <<E[1]>> \o SubSeq(E, 3, Len(E))
        g == HistOf(M, AsEvents(evs))
    IN g.n[1] = h.n[1] + h.n[2] /\ \A b \in 2..NBins(M) : g.n[b] = h.n[b + 1]
(* the knot sums used for resampling telescope to the bin contents *)
KnotLaw == \A b \in 1..NBins(h.edges) :
    NEq(NSub(CumAt(h.edges[b + 1], h.edges, h.w), CumAt(h.edges[b], h.edges, h.w)), h.w[b])
JoinSplit == Join(Lo(h.edges), Hi(h.edges)) = h.edges /\ JoinOK(Lo(h.edges), Hi(h.edges))

(* behaviours for replay against the implementation *)
EmitBeh == (Emit /\ Len(evs) = MaxEvents) =>
    PrintT("BEH|" \o ToJson([edges |-> edges2, evs |-> evs]))
=============================================================================
