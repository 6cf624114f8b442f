-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Extended reals for TLC.  TLC integers have 32 bits and TLC has no reals, *)
(* so a number is carried as a STRING ("0.25", "1e-3", a C99 hexadecimal    *)
(* float, "nan", "inf", "-inf") or as a TLA+ integer.                       *)
(*                                                                         *)
(* The operators declared here are evaluated by java/Num.java: every input  *)
(* is read exactly (a float has an exact decimal expansion) and every       *)
(* operation is rounded to 40 significant digits - 24 digits more than the  *)
(* IEEE doubles of the implementation that is being judged.  Comparisons    *)
(* never round.  nan compares FALSE with everything, as in IEEE 754, so     *)
(* every operator built from them stays total.                              *)
(*                                                                         *)
(* The right-hand sides below only document the operators (they are never   *)
(* evaluated); MCNum.tla checks the algebra on a grid of small rationals.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Ev(a)            == a              \* evaluate completely, now
NCanon(a)        == a              \* canonical representation
NAdd(a, b)       == "a + b"
NSub(a, b)       == "a - b"
NMul(a, b)       == "a * b"
NDiv(a, b)       == "a / b, x/0 = +-inf, 0/0 = nan"
NNeg(a)          == "- a"
NAbs(a)          == "|a|"
NSqrt(a)         == "square root"
NLn(a)           == "natural logarithm"
NLog10(a)        == "decimal logarithm"
NExp(a)          == "exponential"
NPow(a, b)       == "a ^ b"
NSin(a)          == "sine (radian)"
NCos(a)          == "cosine (radian)"
NVersin(a)       == "1 - cos(a), computed without cancellation"
NAtan2(y, x)     == "argument of x + i y, in (-pi, pi]"
NFloor(a)        == "largest integer not above a"
NToInt(a)        == 0              \* nearest TLA+ integer
NIsInt(a)        == FALSE
NLt(a, b)        == FALSE          \* a < b
NLe(a, b)        == FALSE          \* a <= b
NEq(a, b)        == FALSE          \* a = b, FALSE for nan
NSame(a, b)      == FALSE          \* a = b or both nan
NIsNan(a)        == FALSE
NIsFinite(a)     == FALSE
NClose(a, b, rtol, atol) == FALSE  \* |a-b| <= atol + rtol max(|a|,|b|), or the same non-finite
NSum(s)          == "sum of a sequence"
NDot(s, t)       == "sum of products"
NSort(s)         == s              \* ascending, nan last
NPi              == "pi"

----------------------------------------------------------------------------
(* Derived operators, defined in TLA+.                                      *)

NGt(a, b) == NLt(b, a)
NGe(a, b) == NLe(b, a)
NMax(a, b) == IF NIsNan(a) \/ NIsNan(b) THEN "nan" ELSE IF NLe(a, b) THEN b ELSE a
NMin(a, b) == IF NIsNan(a) \/ NIsNan(b) THEN "nan" ELSE IF NLe(a, b) THEN a ELSE b
NNonNeg(a) == NGe(a, "0")
NPos(a)    == NGt(a, "0")
NDeg(a)    == NMul(a, NDiv(NPi, "180"))          \* degrees to radians
NHalf(a)   == NDiv(a, "2")

(* element-wise helpers on sequences; Ev makes TLC evaluate them once  *)
SMap(Op(_), s) == Ev([i \in 1..Len(s) |-> Op(s[i])])
SScale(s, c)   == Ev([i \in 1..Len(s) |-> NMul(s[i], c)])
SAdd(s, t)     == Ev([i \in 1..Len(s) |-> NAdd(s[i], t[i])])
SDiff(s)       == Ev([i \in 1..(Len(s) - 1) |-> NSub(s[i + 1], s[i])])
SClose(s, t, r, a) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : NClose(s[i], t[i], r, a)
SSame(s, t)    == Len(s) = Len(t) /\ \A i \in 1..Len(s) : NSame(s[i], t[i])
NSumOver(S, F(_)) == LET s == SetToSeq(S) IN NSum(Ev([i \in 1..Len(s) |-> F(s[i])]))
NMaxOf(s) == NSort(s)[Len(s)]
NMinOf(s) == NSort(s)[1]

(* numbers with the values nan removed, as a sequence *)
DropNan(s) == SelectSeq(s, LAMBDA x : ~NIsNan(x))

(* Linear-interpolation quantile of a non-empty sequence of numbers (the    *)
(* definition 7 of Hyndman and Fan, the default of numpy), q in [0, 1].     *)
Quantile(s, q) ==
    LET t   == NSort(s)
        n   == Len(t)
        pos == NMul(n - 1, q)
        lo  == NToInt(NFloor(pos))
        fr  == NSub(pos, lo)
        a   == t[lo + 1]
        b   == t[IF lo + 2 <= n THEN lo + 2 ELSE n]
    IN IF NEq(fr, "0") THEN NCanon(a) ELSE NAdd(a, NMul(fr, NSub(b, a)))

NanQuantile(s, q) == LET t == DropNan(s) IN IF Len(t) = 0 THEN "nan" ELSE Quantile(t, q)

(* piecewise-linear interpolation through (xs, ys), clamped at the ends     *)
(* (np.interp); xs ascending                                                *)
Interp(x, xs, ys) ==
    LET n == Len(xs) IN
    IF NIsNan(x) THEN "nan"
    ELSE IF NLe(x, xs[1]) THEN ys[1]
    ELSE IF NGe(x, xs[n]) THEN ys[n]
    ELSE LET i == CHOOSE j \in 1..(n - 1) : NLe(xs[j], x) /\ NLt(x, xs[j + 1])
         IN NAdd(ys[i], NMul(NDiv(NSub(x, xs[i]), NSub(xs[i + 1], xs[i])), NSub(ys[i + 1], ys[i])))
=============================================================================
