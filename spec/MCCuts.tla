------------------------------- MODULE MCCuts -------------------------------
(***************************************************************************)
(* Exhaustive model of cut calculation: events arrive one by one, the cut   *)
(* table is recalculated after each arrival and applied to all events.      *)
(***************************************************************************)
EXTENDS Cuts, Json

CONSTANTS MaxEvents, Emit

Edges  == <<"0", "2", "3">>
Values == {"-1", "1", "4", "nan"}
BVals  == {"-1", "0", "2", "3"}
Qs     == <<"0", "0.25", "0.68", "1">>

VARIABLES evs
vars == <<evs>>
Init == evs = <<>>
Next == /\ Len(evs) < MaxEvents
        /\ \E v \in Values, b \in BVals : evs' = Append(evs, [v |-> v, b |-> b])
Spec == Init /\ [][Next]_vars

V == [k \in 1..Len(evs) |-> evs[k].v]
B == [k \in 1..Len(evs) |-> evs[k].b]
Cut(q, minEv) == RawCuts(V, B, Edges, q, "99", "none", "none", minEv)
Clipped(q)    == RawCuts(V, B, Edges, q, "99", "0", "3", 1)

(* a cut is a value between the smallest and largest value of its own bin,  *)
(* or the fill value of a bin with too few events                           *)
CutInRange == \A j \in 1..Len(Qs) : \A b \in 1..2 :
    LET vs == InBin(V, B, Edges, b)  c == Cut(Qs[j], 2)[b]  f == DropNan(vs)
    IN IF Len(vs) < 2 THEN c = "99"
       ELSE IF Len(f) = 0 THEN NIsNan(c)
       ELSE NLe(NMinOf(f), c) /\ NLe(c, NMaxOf(f))
Monotone == \A j \in 1..(Len(Qs) - 1) : \A b \in 1..2 :
    LET a == Cut(Qs[j], 1)[b]  c == Cut(Qs[j + 1], 1)[b] IN NIsNan(a) \/ NLe(a, c)
ClipLaw == \A j \in 1..Len(Qs) : \A b \in 1..2 :
    LET c == Clipped(Qs[j])[b] IN c = "99" \/ NIsNan(c) \/ (NLe("0", c) /\ NLe(c, "3"))
(* "at most the p-percentile" keeps at least the fraction p of the bin      *)
Efficiency == \A j \in 1..Len(Qs) : \A b \in 1..2 :
    LET f == DropNan(InBin(V, B, Edges, b))
        c == Cut(Qs[j], 1)[b]
        sel == Cardinality({k \in 1..Len(f) : NLe(f[k], c)})
    IN Len(f) > 0 => NGe(sel, NMul(Qs[j], Len(f) - 1))
(* a sample in which every value is there two or three times *)
TimesLaw == \A j \in 1..Len(Qs) : \A b \in 1..2 :
    LET vs == InBin(V, B, Edges, b)
        ts == [k \in 1..Len(vs) |-> 2 + (k % 2)]
        RECURSIVE Many(_)
        Many(k) == IF k > Len(vs) THEN <<>> ELSE [x \in 1..ts[k] |-> vs[k]] \o Many(k + 1)
        many == Many(1)
    IN Len(vs) > 0 => LET a == NanQuantileTimes(vs, ts, Qs[j])  c == NanQuantile(many, Qs[j]) IN
                      IF NIsNan(c) THEN NIsNan(a) ELSE NEq(a, c)
(* an event outside the binning is never selected; le and gt are            *)
(* complementary inside (unless nan)                                        *)
Partition == \A k \in 1..Len(evs) :
    LET c == Cut("0.68", 1)
        s(op) == Selected(V[k], B[k], Edges, c, op)
        in == Inside(BinOf(B[k], Edges), Edges)
    IN /\ (~in => \A op \in {"ge", "gt", "le", "lt"} : ~s(op))
       /\ (in /\ ~NIsNan(V[k]) /\ ~NIsNan(c[BinOf(B[k], Edges)]) => (s("le") # s("gt")) /\ (s("lt") # s("ge")))
OrderFree == Len(evs) > 1 =>
    LET r(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
    IN \A j \in 1..Len(Qs) : SSame(RawCuts(r(V), r(B), Edges, Qs[j], "99", "none", "none", 1), Cut(Qs[j], 1))
(* smoothing preserves constants and the range *)
SmoothLaw == Len(evs) = 0 =>
    /\ \A s \in {"0.3", "1", "2.5"} : LET k == Kernel(s) IN
         NClose(NAdd(k[0], NMul("2", NSumOver(1..Radius(s), LAMBDA j : k[j]))), "1", "1e-30", "0")
    /\ \A x \in {"0", "1", "5"} : \A y \in {"0", "1", "5"} : \A s \in {"0.5", "1"} :
         LET r == Smooth(<<x, y, y>>, s) IN
         \A b \in 1..3 : NLe(NSub(NMin(x, y), "1e-30"), r[b]) /\ NLe(r[b], NAdd(NMax(x, y), "1e-30"))

EmitBeh == (Emit /\ Len(evs) = MaxEvents) => PrintT("BEH|" \o ToJson([evs |-> evs]))
=============================================================================
