------------------------------- MODULE MCSens -------------------------------
(***************************************************************************)
(* Exhaustive model of a counting experiment: on and off events arrive one  *)
(* by one; the invariants are the laws of the significance and of the       *)
(* relative sensitivity at every reachable pair of counts.                  *)
(***************************************************************************)
EXTENDS Sensitivity, Json

CONSTANTS MaxOn, MaxOff, Emit
VARIABLES on, off, al
vars == <<on, off, al>>

Init == on = 0 /\ off = 0 /\ al \in {"0.2", "1", "2.5"}
Next == /\ UNCHANGED al
        /\ \/ on < MaxOn /\ on' = on + 1 /\ UNCHANGED off
           \/ off < MaxOff /\ off' = off + 1 /\ UNCHANGED on
Spec == Init /\ [][Next]_vars

S(a, b) == LiMa(a, b, al)
NonNegative == NGe(S(on, off), "0") /\ ~NIsNan(S(on, off))
ZeroBelow == NLe(on, NMul(al, off)) <=> NEq(S(on, off), "0")
GrowsWithOn == NLe(S(on, off), S(on + 1, off))
FallsWithOff == NGe(S(on, off), S(on, off + 1))
(* independent form of formula 17: likelihood ratio of the null hypothesis   *)
(* with background b0 = (on + off) / (1 + alpha) in the off region            *)
LikelihoodRatio ==
    LET b0 == NDiv(on + off, NAdd("1", al))
        l(n, mu) == IF NEq(n, "0") THEN NNeg(mu) ELSE NSub(NMul(n, NLn(mu)), mu)
        ts == NSub(NAdd(l(on, on), l(off, off)), NAdd(l(on, NMul(al, b0)), l(off, b0)))
    IN (on + off > 0 /\ NGt(on, NMul(al, off))) =>
         NClose(NMul(S(on, off), S(on, off)), NMul("2", ts), "1e-30", "1e-30")

Crit == [f |-> "lima", sig |-> "5", events |-> "10", excess |-> "0.05"]
(* the criteria are monotone in the scaling, so "the smallest scaling" exists *)
Scalings == <<"0.1", "0.5", "1", "3", "10", "100">>
MonotoneCriteria == NGt(Signal(on, off, al), "0") =>
    \A j \in 1..(Len(Scalings) - 1) :
        Meets(Scalings[j], on, off, al, Crit) => Meets(Scalings[j + 1], on, off, al, Crit)
RECURSIVE Bisect(_, _, _)
Bisect(lo, hi, n) == IF n = 0 THEN hi ELSE
    LET mid == NSqrt(NMul(lo, hi)) IN
    IF Meets(mid, on, off, al, Crit) THEN Bisect(lo, mid, n - 1) ELSE Bisect(mid, hi, n - 1)
(* the solution of the specification passes its own verdict, 1 % more or less does not *)
SolutionIsUnique == (on % 3 = 0 /\ NGt(Signal(on, off, al), "0")) =>
    LET r == Bisect("1e-3", "1e3", 50) IN
    /\ RelSensVerdict(r, on, off, al, Crit) = {}
    /\ RelSensVerdict(NMul(r, "1.01"), on, off, al, Crit) # {}
    /\ RelSensVerdict(NMul(r, "0.99"), on, off, al, Crit) # {}
EmitBeh == Emit => PrintT("BEH|" \o ToJson([on |-> on, off |-> off, al |-> al]))
=============================================================================
