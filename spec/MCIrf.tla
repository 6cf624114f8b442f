------------------------------- MODULE MCIrf -------------------------------
(***************************************************************************)
(* The IRF tally filled event by event, in two partial productions that may *)
(* be merged at any time, with axes (energy, migration, offset).            *)
(***************************************************************************)
EXTENDS Irf, Json

CONSTANTS MaxEvents, EmitLen
E  == <<"1", "2", "8">>
M  == <<"0.5", "1", "1.5", "3">>
F  == <<"0", "0.01", "0.04">>
Axes == <<E, M, F>>
(* events: true energy, migration, offset; on edges, inside, outside *)
Events == { <<"1", "1", "0">>, <<"2", "0.5", "0.01">>, <<"8", "3", "0.04">>, <<"1.5", "0.75", "0.02">>,
            <<"4", "1.25", "0.005">>, <<"0.5", "1", "0.01">>, <<"4", "4", "0.01">>, <<"4", "2", "0.05">> }
VARIABLES A, B, hist
vars == <<A, B, hist>>
Empty == EmptyTally(Axes)
Init == A = Empty /\ B = Empty /\ hist = <<>>
Weight(e) == e[1]
Process == Len(hist) < MaxEvents /\ \E e \in Events, p \in {1, 2} :
    /\ IF p = 1 THEN A' = FillTally(A, e, Weight(e)) /\ UNCHANGED B
                ELSE B' = FillTally(B, e, Weight(e)) /\ UNCHANGED A
    /\ hist' = Append(hist, <<e, p>>)
Next == Process
Spec == Init /\ [][Next]_vars

T == Merge(A, B)
D == Dims(Axes)
Conservation == /\ T.seen = Len(hist)
                /\ SumN(T.n, 1..NCells(Axes)) = Cardinality({k \in 1..Len(hist) : CellOf(hist[k][1], Axes) # 0})
                /\ NEq(NSum(T.w), NSumOver({k \in 1..Len(hist) : CellOf(hist[k][1], Axes) # 0}, LAMBDA k : Weight(hist[k][1])))
(* filling all events in one go, in any order, gives the merged tally *)
Additive == LET evs == [k \in 1..Len(hist) |-> hist[k][1]]
                rev == [k \in 1..Len(hist) |-> hist[Len(hist) + 1 - k][1]]
                once == FillRows(Empty, evs, [k \in 1..Len(hist) |-> Weight(evs[k])])
                twice == FillRowsTimes(Empty, evs, [k \in 1..Len(hist) |-> Weight(evs[k])], [k \in 1..Len(hist) |-> 2])
                back == FillRows(Empty, rev, [k \in 1..Len(hist) |-> Weight(rev[k])])
            IN twice.n = [c \in 1..Len(T.n) |-> 2 * T.n[c]] /\ twice.seen = 2 * T.seen /\ once.n = T.n /\ back.n = T.n /\ (\A c \in 1..Len(T.w) : NEq(once.w[c], T.w[c]) /\ NEq(back.w[c], T.w[c]))
DispersionNormalised == \A a \in 1..D[1], f \in 1..D[3] :
    LET s == NSum(Ev([m \in 1..D[2] |-> NMul(Dispersion(T, a, m, f), Width(M, m))])) IN
    IF Over2(T, a, f) = 0 THEN NEq(s, "0") ELSE NClose(s, "1", "1e-30", "0")
MigrationNormalised == \A a \in 1..D[1], f \in 1..D[3] :
    LET s == NSum(Ev([m \in 1..D[2] |-> Migration(T, a, m, f)])) IN
    IF Over2(T, a, f) = 0 THEN NEq(s, "0") ELSE NClose(s, "1", "1e-30", "0")
PsfNormalised ==       \* the same tally read as (energy, migration, source offset)
    \A a \in 1..D[1], m \in 1..D[2] :
      LET s == NSum(Ev([f \in 1..D[3] |-> NMul(Psf(T, a, m, f), SolidRing(F[f], F[f + 1]))])) IN
      IF Over3(T, a, m) = 0 THEN NEq(s, "0") ELSE NClose(s, "1", "1e-30", "0")
EmitBeh == (Len(hist) = EmitLen) =>
    PrintT("BEH|" \o ToJson([evs |-> [k \in 1..Len(hist) |-> hist[k][1]], part |-> [k \in 1..Len(hist) |-> hist[k][2]]]))
=============================================================================
