-------------------------------- MODULE MCSim --------------------------------
(***************************************************************************)
(* Binnings of the simulated showers as a state machine: an edge is added    *)
(* or removed in each step.  Whatever the history, contents are additive,    *)
(* non-negative and complete.                                                *)
(***************************************************************************)
EXTENDS Simulation, Json, SequencesExt

CONSTANTS Emit, Indices, FovWith
Grid == <<"0", "0.05", "0.1", "0.3", "1", "10", "100", "inf">>       \* energies
FGrid == <<"0", "0.01", "0.02", "0.05", "0.1", "0.3", "3">>          \* angles
Infos == { [n |-> "1000000", emin |-> "0.1", emax |-> "10", index |-> g, impact |-> "300",
            vmin |-> v[1], vmax |-> v[2]] : g \in Indices, v \in {<<"0", "0.1">>, <<"0.02", "0.3">>} }
VARIABLES info, ed, fd
vars == <<info, ed, fd>>
Init == info \in Infos /\ ed \in {{1, 8}, {3, 6}} /\ fd \in {{1, 7}}
AddEdge == fd = {1, 7} /\ \E k \in (1..Len(Grid)) \ ed : ed' = ed \cup {k} /\ UNCHANGED <<fd, info>>
AddFov == Cardinality(ed) <= FovWith /\ \E k \in (1..Len(FGrid)) \ fd : fd' = fd \cup {k} /\ UNCHANGED <<ed, info>>
Next == AddEdge \/ AddFov
Spec == Init /\ [][Next]_vars

EdgesOf(S, g) == LET s == SetToSortSeq(S, <) IN Ev([k \in 1..Len(s) |-> g[s[k]]])
E == EdgesOf(ed, Grid)
F == EdgesOf(fd, FGrid)
Covers == NLe(E[1], info.emin) /\ NGe(E[Len(E)], info.emax)
TotalWhenCovering == Covers => NClose(NSum(PerEnergy(info, E)), info.n, "1e-30", "0")
NonNegative == (\A b \in 1..NBins(E) : NNonNeg(PerEnergy(info, E)[b])) /\ \A b \in 1..NBins(F) : NNonNeg(PerFov(info, F)[b])
ZeroOutside == \A b \in 1..NBins(E) : (NLe(E[b + 1], info.emin) \/ NGe(E[b], info.emax)) => NEq(PerEnergy(info, E)[b], "0")
FovTotal == NClose(NSum(PerFov(info, F)), info.n, "1e-30", "0")
Additive == \A a \in 1..NBins(E) : \A b \in a..NBins(E) :
    NClose(NSum(SubSeq(PerEnergy(info, E), a, b)), NMul(info.n, EnergyShare(info, E[a], E[b + 1])), "1e-28", "1e-28")
(* the spectrum of the simulation brings exactly the simulated showers        *)
SpectrumNormalised ==
    LET area == NMul(NPi, NPow(info.impact, 2))  om == SolidRing(info.vmin, info.vmax)
        norm == NDiv(info.n, Arrivals("1", "1", info.index, info.emin, info.emax, area, "3600", om))
    IN \A b \in 1..NBins(E) : NGe(E[b], info.emin) /\ NLe(E[b + 1], info.emax) =>
         NClose(Arrivals(norm, "1", info.index, E[b], E[b + 1], area, "3600", om), PerEnergy(info, E)[b], "1e-28", "0")
EmitBeh == (Emit /\ (Cardinality(ed) <= 2 \/ fd = {1, 7})) => PrintT("BEH|" \o ToJson([index |-> info.index, vmin |-> info.vmin, vmax |-> info.vmax, e |-> E, f |-> F]))
=============================================================================
