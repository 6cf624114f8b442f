-------------------------------- MODULE MCNum --------------------------------
(***************************************************************************)
(* The arithmetic the whole specification rests on: three registers loaded  *)
(* with numbers of a grid; in every reachable state the laws of an ordered  *)
(* field, of IEEE non-finite numbers and of the elementary functions hold.  *)
(* Integers small enough for TLC's own arithmetic are compared with it.     *)
(***************************************************************************)
EXTENDS Num
Grid == {"0", "1", "-1", "3", "-7", "0.1", "-2.5", "1e-3", "0x1.999999999999ap-4", "1e20", "-1e-20", "12345.678"}
Odd  == {"nan", "inf", "-inf"}
Small == -6..6
VARIABLES a, b, c, i, j
vars == <<a, b, c, i, j>>
Init == a = "0" /\ b = "0" /\ c = "0" /\ i = 0 /\ j = 0
Next == \/ a = "0" /\ i = 0 /\ a' \in Grid \cup Odd /\ UNCHANGED <<b, c, i, j>>
        \/ b = "0" /\ i = 0 /\ b' \in Grid \cup Odd /\ UNCHANGED <<a, c, i, j>>
        \/ c = "0" /\ i = 0 /\ c' \in {"1", "-2.5", "1e20", "12345.678"} /\ UNCHANGED <<a, b, i, j>>
        \/ a = "0" /\ b = "0" /\ c = "0" /\ i' \in Small /\ j' \in Small /\ UNCHANGED <<a, b, c>>
Spec == Init /\ [][Next]_vars
Fin == NIsFinite(a) /\ NIsFinite(b)
T == "1e-38"
Near(x, y) == NClose(x, y, T, "0")
Field == Fin =>
    /\ NEq(NAdd(a, b), NAdd(b, a)) /\ NEq(NMul(a, b), NMul(b, a))
    /\ Near(NAdd(a, "0"), a) /\ Near(NMul(a, "1"), a) /\ NEq(NSub(a, a), "0")
    /\ NClose(NSub(a, b), NAdd(a, NNeg(b)), T, NMul(T, NAbs(b))) /\ Near(NNeg(NNeg(a)), a)
    /\ NClose(NMul(c, NAdd(a, b)), NAdd(NMul(c, a), NMul(c, b)), T, NMul(T, NAbs(NMul(c, a))))
    /\ NClose(NAdd(c, NAdd(a, b)), NAdd(NAdd(c, a), b), T, NMul(T, NAdd(NAbs(a), NAdd(NAbs(b), NAbs(c)))))
    /\ ~NEq(b, "0") => Near(NMul(NDiv(a, b), b), a)
    /\ NNonNeg(NAbs(a)) /\ (Near(NAbs(a), a) \/ Near(NAbs(a), NNeg(a)))
Order ==
    /\ Fin => /\ NLt(a, b) \/ NLt(b, a) \/ NEq(a, b)
              /\ NLt(a, b) = (NLe(a, b) /\ ~NEq(a, b))
              /\ NLt(a, b) => NLe(NSub(a, b), "0")
              /\ NLe(NMin(a, b), NMax(a, b)) /\ NClose(NAdd(NMin(a, b), NMax(a, b)), NAdd(a, b), T, NMul(T, NAbs(b)))
    /\ (NLt(a, b) /\ NLt(b, c)) => NLt(a, c)
    /\ NSame(a, a) /\ (NEq(a, a) = ~NIsNan(a))
NonFinite ==
    /\ (NIsNan(a) \/ NIsNan(b)) => /\ ~NLt(a, b) /\ ~NLe(a, b) /\ ~NEq(a, b)
                                   /\ NIsNan(NAdd(a, b)) /\ NIsNan(NMul(a, b)) /\ NIsNan(NMin(a, b))
    /\ (a = "inf" /\ ~NIsNan(b)) => /\ NLe(b, a)
                                    /\ (NIsNan(NAdd(a, b)) <=> b = "-inf")
                                    /\ (NIsNan(NMul(a, b)) <=> NEq(b, "0"))
    /\ NIsFinite(a) = (a \in Grid)
    /\ (b \in Grid /\ NEq(b, "0")) => IF NIsNan(a) \/ NEq(a, "0") THEN NIsNan(NDiv(a, b))
                                      ELSE NEq(NDiv(a, b), IF NPos(a) THEN "inf" ELSE "-inf")
Elementary == NIsFinite(a) =>
    /\ NPos(a) => /\ Near(NExp(NLn(a)), a) /\ Near(NMul(NSqrt(a), NSqrt(a)), a)
                  /\ NClose(NMul(NLog10(a), NLn("10")), NLn(a), T, T)
                  /\ Near(NPow(a, "2"), NMul(a, a)) /\ Near(NPow(a, "0.5"), NSqrt(a)) /\ NClose(NPow(a, "-1"), NDiv("1", a), T, "0")
    /\ NClose(NAdd(NMul(NSin(a), NSin(a)), NMul(NCos(a), NCos(a))), "1", "1e-30", "0")
    /\ NClose(NVersin(a), NMul("2", NMul(NSin(NDiv(a, "2")), NSin(NDiv(a, "2")))), "1e-12", "0")
    /\ (NIsFinite(b) /\ ~(NEq(a, "0") /\ NEq(b, "0"))) =>
         LET r == NSqrt(NAdd(NMul(a, a), NMul(b, b)))  t == NAtan2(a, b)
         IN /\ NClose(NMul(r, NSin(t)), a, "1e-30", NMul("1e-30", r)) /\ NClose(NMul(r, NCos(t)), b, "1e-30", NMul("1e-30", r))
            /\ NLe(t, NPi) /\ NLt(NNeg(NPi), t)
    /\ (NLe(NAbs(a), "100000") /\ NLe(NAbs(c), "100000")) => NClose(NSin(NAdd(a, c)), NAdd(NMul(NSin(a), NCos(c)), NMul(NCos(a), NSin(c))), "0", "1e-28")
    /\ NLe(NFloor(a), a) /\ NLt(a, NAdd(NFloor(a), "1")) /\ NIsInt(NFloor(a))
Sequences0 == NIsFinite(a) =>
    /\ NClose(NSum(<<a, b, c>>), NAdd(a, NAdd(b, c)), T, NMul(T, NAdd(NAbs(a), NAdd(NAbs(b), NAbs(c)))))
    /\ NIsFinite(b) => NClose(NDot(<<a, b>>, <<c, a>>), NAdd(NMul(a, c), NMul(b, a)), T, NMul(T, NAdd(NAbs(NMul(a, c)), NAbs(NMul(b, a)))))
    /\ LET s == NSort(<<a, b, c>>) IN
         /\ Len(s) = 3
         /\ ~NIsNan(b) => NLe(s[1], s[2]) /\ NLe(s[2], s[3])
         /\ NIsNan(b) => NIsNan(s[3]) /\ NLe(s[1], s[2])
         /\ \E p \in Permutations(1..3) : \A k \in 1..3 : NSame(s[k], <<a, b, c>>[p[k]])
AgreesWithTLC ==
    /\ NEq(NAdd(i, j), i + j) /\ NEq(NSub(i, j), i - j) /\ NEq(NMul(i, j), i * j)
    /\ NLt(i, j) = (i < j) /\ NLe(i, j) = (i <= j) /\ NEq(i, j) = (i = j)
    /\ j > 0 => /\ NToInt(NFloor(NDiv(i, j))) = i \div j
                /\ NIsInt(NDiv(i, j)) = (i % j = 0)
    /\ j > 0 => NEq(NPow(i, j), i ^ j)
=============================================================================
