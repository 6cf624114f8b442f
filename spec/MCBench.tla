------------------------------ MODULE MCBench ------------------------------
(***************************************************************************)
(* One row of an energy dispersion, filled event by event: its quantiles    *)
(* are monotone, lie in the bin that crosses the level, and agree with the  *)
(* sample quantiles to within the bin in which those fall.                  *)
(***************************************************************************)
EXTENDS Benchmarks, Json
CONSTANTS MaxEvents, Emit
Edges == <<"0.2", "0.5", "1", "1.5", "4">>
Mus   == {"0.2", "0.3", "0.5", "0.9", "1.2", "1.4", "2"}
Qs    == <<"0.1", LowerSigma, "0.3", "0.5", "0.7", UpperSigma, "0.9">>
VARIABLES evs
vars == <<evs>>
Init == evs = <<>>
Next == Len(evs) < MaxEvents /\ \E m \in Mus : evs' = Append(evs, m)
Spec == Init /\ [][Next]_vars

NB == NBins(Edges)
Bins == [k \in 1..Len(evs) |-> HistBinOf(evs[k], Edges)]
Counts == Ev([b \in 1..NB |-> Cardinality({k \in 1..Len(evs) : Bins[k] = b})])
Prob == Ev([b \in 1..NB |-> NDiv(Counts[b], Len(evs))])
Cum == CumAtEdge(Prob)
Q(q) == QuantileOfCdf(q, Edges, Cum)
Monotone == evs # <<>> => \A a \in 1..(Len(Qs) - 1) : NLe(Q(Qs[a]), Q(Qs[a + 1]))
InverseOfCdf  == evs # <<>> => \A a \in 1..Len(Qs) : NClose(CdfAt(Q(Qs[a]), Edges, Cum), Qs[a], "1e-30", "1e-30")
InRange  == evs # <<>> => \A a \in 1..Len(Qs) : NLe(Edges[1], Q(Qs[a])) /\ NLe(Q(Qs[a]), Edges[NB + 1])
(* the bin crossing the level holds an event, and at most a share q of the     *)
(* events lies in earlier bins                                                 *)
RightBin == evs # <<>> => \A a \in 1..Len(Qs) :
    LET b == CHOOSE j \in 1..NB : NLt(Cum[j], Qs[a]) /\ NGe(Cum[j + 1], Qs[a])
    IN Counts[b] > 0 /\ NLe(Edges[b], Q(Qs[a])) /\ NLe(Q(Qs[a]), Edges[b + 1])
EmitBeh == (Emit /\ Len(evs) = MaxEvents) => PrintT("BEH|" \o ToJson([counts |-> Counts]))
=============================================================================
