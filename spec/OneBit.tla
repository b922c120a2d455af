------------------------------- MODULE OneBit -------------------------------
(* 1-bit compressive sensing.  BIHT over integer matrices and a step of one or *)
(* two is exact: iterates are integers in half units.                          *)
EXTENDS Lin, FiniteSetsExt
SgnV(v) == [i \in 1..Len(v) |-> Sign(v[i])]
Miss(y, A, x) == VSub(y, SgnV(MatVec(A, x)))
NMiss(r) == Cardinality({i \in 1..Len(r) : r[i] # 0})
(* gradient step in half units: x + tau/2 A^T r = x + tau * (A^T r) / 2 *)
Moved(A, x, r, tau) == VAdd(x, VScale(tau, MatTVec(A, r)))
TopSets(v, k) == {S \in kSubset(k, 1..Len(v)) : \A i \in S : \A j \in (1..Len(v)) \ S : Abs(v[i]) >= Abs(v[j])}
KeepOn(v, S) == [i \in 1..Len(v) |-> IF i \in S THEN v[i] ELSE 0]
Succ(A, y, x, k, tau) == \* all admissible next iterates (ties either way)
   UNION {{KeepOn(v, S) : S \in TopSets(v, k)} : v \in {Moved(A, x, Miss(y, A, x), tau)}}
=============================================================================
