------------------------------- MODULE MCScan -------------------------------
(***************************************************************************)
(* The scan over cut combinations as a state machine: after every visited   *)
(* combination the best one so far is kept per energy bin.  At the end it   *)
(* is the first minimum, or the first combination if none is valid.         *)
(***************************************************************************)
EXTENDS Sensitivity

CONSTANTS NCombos
Vals == {"nan", "inf", "1", "2"}
Bins == 1..2
VARIABLES seen, best
vars == <<seen, best>>
Init == seen = [b \in Bins |-> <<>>] /\ best = [b \in Bins |-> 1]
Visit(r) == LET k == Len(seen[1]) + 1 IN
    /\ seen' = [b \in Bins |-> Append(seen[b], r[b])]
    /\ best' = [b \in Bins |-> IF k > 1 /\ Better(r[b], seen[b][best[b]]) THEN k ELSE best[b]]
Next == Len(seen[1]) < NCombos /\ \E r \in [Bins -> Vals] : Visit(r)
Spec == Init /\ [][Next]_vars

FirstMinimum == Len(seen[1]) > 0 => \A b \in Bins :
    LET s == seen[b]  valid == {k \in 1..Len(s) : ~NIsNan(s[k])} IN
    IF valid = {} THEN best[b] = 1
    ELSE /\ best[b] \in valid
         /\ \A k \in valid : NLe(s[best[b]], s[k])
         /\ \A k \in valid : k < best[b] => NLt(s[best[b]], s[k])
(* the bins do not influence each other *)
Independent == \A b \in Bins : best[b] <= (IF Len(seen[1]) = 0 THEN 1 ELSE Len(seen[1]))
=============================================================================
