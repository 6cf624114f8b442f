------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* A session of a user with the library: a sequence of public calls that    *)
(* share argument objects, with the user working on these objects and on    *)
(* returned results in between.                                             *)
(*                                                                         *)
(* State: heap  - what every object the user can see contains: arguments,   *)
(*                results that were returned earlier, public constants and  *)
(*                default arguments, global numpy state (as digests)        *)
(*        memo  - the outcome of each call on given contents, as it is in a *)
(*                pristine process                                          *)
(*                                                                         *)
(* A result is [h, s, v]: h identifies its exact contents, s its structure  *)
(* (names, shapes, units), v its blocks of numbers in SI units.             *)
(***************************************************************************)
EXTENDS Export

(* repetitions of the very same computation; the same inputs put differently *)
Repeat == "1e-12"
Again(cls) == IF cls = "root" THEN "1e-6" ELSE "1e-10"     \* root: results of a root search or of interpolated quantiles

Size(b) == LET f == SelectSeq(b, NIsFinite) IN IF f = <<>> THEN "0" ELSE NMaxOf(SMap(NAbs, f))
BlockClose(x, y, tol) == Len(x) = Len(y) /\ SClose(x, y, tol, NMul(tol, Size(x)))
SameResult(a, b, tol) == \/ a.h = b.h
                         \/ /\ a.s = b.s
                            /\ Len(a.v) = Len(b.v)
                            /\ \A k \in 1..Len(a.v) : BlockClose(a.v[k], b.v[k], tol)
SameOutcome(a, b, tol) == IF b.k = "ok" THEN a.k = "ok" /\ SameResult(a, b, tol)
                          ELSE a.k = b.k /\ a.type = b.type

(* rows of the result follow the rows of the table *)
IsPerm(p) == {p[k] : k \in 1..Len(p)} = 1..Len(p)
Permuted(b, p) == IF Len(b) = Len(p) THEN Ev([k \in 1..Len(p) |-> b[p[k]]]) ELSE b
SamePermuted(a, b, p, tol) == /\ a.k = "ok" /\ b.k = "ok" /\ a.s = b.s /\ Len(a.v) = Len(b.v)
                              /\ \A k \in 1..Len(a.v) : BlockClose(a.v[k], Permuted(b.v[k], p), tol)
(* the results of two parts of a table add up to that of the whole *)
SumsTo(a, b, w, tol) == /\ a.k = "ok" /\ b.k = "ok" /\ w.k = "ok" /\ a.s = w.s /\ b.s = w.s
                        /\ \A k \in 1..Len(w.v) : BlockClose(SAdd(a.v[k], b.v[k]), w.v[k], tol)

(* objects other than those in S whose contents changed *)
Changed(heap, new, S) == {n \in DOMAIN heap \ S : n \notin DOMAIN new \/ new[n] # heap[n]}

(* the same physical quantity *)
SameQuantity(v, us, w, ws) == UDims(us) = UDims(ws) /\ Len(v) = Len(w)
    /\ LET a == USize(us)  b == USize(ws) IN \A k \in 1..Len(v) : NClose(NMul(v[k], a), NMul(w[k], b), "1e-13", "0")
=============================================================================
