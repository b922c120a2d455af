------------------------------ MODULE SscTrace ------------------------------
EXTENDS Ssc, TraceBase
NearlyOrdered(A, i, a, b) == A[i][a] <= A[i][b] + 8
(* (p_i, p_j) is closer than (p_i, p_k) by more than rounding, by exact cosines *)
ClearlyCloser(P, i, j, k) == CosQ(P[i], P[j]) > CosQ(P[i], P[k]) + 8
(* rep: runs with sparsity 1..K; Z[k], I[k] are k x n, R[k] is D x n, all at scale Q *)
ColOf(M, j) == [i \in 1..Len(M) |-> M[i][j]]
RepOK(d, r, k, unitDict) ==
  LET n == Len(d.pts)  D == Len(d.pts[1]) IN
  IF Len(r.I) # k \/ \E a \in 1..k : Len(r.I[a]) # n \/ \E j \in 1..n : r.I[a][j] < 0 \/ r.I[a][j] >= n THEN {"index-range"}
  ELSE IF ~MFinite(r.Z) \/ ~MFinite(r.R) \/ \E a \in 1..D : MaxAbs(r.R[a]) > 40 * Q THEN {"not-finite"}
  ELSE C("never-itself", \A j \in 1..n : \A a \in 1..k : r.I[a][j] # j - 1)
  \cup C("at-most-k-others", \A j \in 1..n : \A a, b \in 1..k : a < b => r.I[a][j] # r.I[b][j])
  \cup C("reconstructs", \A j \in 1..n :          \* dictionary times coefficients plus residual is the point (or the unit point)
        LET v == [t \in 1..D |-> SumS([a \in 1..k |-> FMul(unitDict[r.I[a][j] + 1][t], r.Z[a][j], Q)]) + r.R[t][j]]
        IN VNear(v, VScale(Q, d.pts[j]), 60) \/ VNear(v, unitDict[j], 30))
  \cup C("least-squares", \A j \in 1..n : \A a \in 1..k : Abs(QDot(unitDict[r.I[a][j] + 1], ColOf(r.R, j))) <= 40)
StepOK(d, I, k, R, unitDict) ==                   \* the k-th selection given the residual before it
  \A j \in 1..Len(d.pts) :
     LET c == [i \in 1..Len(d.pts) |-> Abs(QDot(unitDict[i], R[j]))]
     IN \A i \in Others(Len(d.pts), j) : c[I[k][j] + 1] >= c[i] - 50
Family(d, rs, ud) ==
  UNION {RepOK(d, rs[k], k, ud) : k \in 1..Len(rs)} \cup
  (IF \E k \in 1..Len(rs) : RepOK(d, rs[k], k, ud) # {} THEN {} ELSE
     C("first-atom", StepOK(d, rs[1].I, 1, ud, ud))
     \cup C("next-atom", Len(rs) < 2 \/ StepOK(d, rs[2].I, 2, [j \in 1..Len(d.pts) |-> ColOf(rs[1].R, j)], ud))
     \cup C("one-scale", LET P(k, j, w, tol) == VNear([t \in 1..Len(d.pts[1]) |-> SumS([a \in 1..k |-> FMul(ud[rs[k].I[a][j] + 1][t], rs[k].Z[a][j], Q)]) + rs[k].R[t][j]], w, tol)
                        IN \/ \A k \in 1..Len(rs), j \in 1..Len(d.pts) : P(k, j, VScale(Q, d.pts[j]), 60)      \* every sparsity level describes the same points:
                           \/ \A k \in 1..Len(rs), j \in 1..Len(d.pts) : P(k, j, ud[j], 30))                    \* those given, or all of them normalised
     \cup C("prefix", Len(rs) < 2 \/ rs[2].I[1] = rs[1].I[1]))
RepV(ev) == LET ud == TLCEval([i \in 1..Len(ev.d.pts) |-> Unit(ev.d.pts[i])]) IN
  Family(ev.d, ev.plain, ud) \cup {"batch-" \o c : c \in Family(ev.d, ev.batch, ud)} \cup {"jit-" \o c : c \in Family(ev.d, ev.jit, ud)}
(* angles in hundredths of a degree; cosines recorded by the code are not: compare through exact special values and order *)
AngleVerdict(ev) ==
  LET d == ev.d  n == Len(d.pts)  A == ev.ang IN
  IF Len(A) # n \/ \E i \in 1..n : Len(A[i]) # n \/ ~VFinite(A[i]) THEN {"not-finite"} ELSE
   C("symmetric", \A i, j \in 1..n : Near(A[i][j], A[j][i], 8))
   \cup C("cosine", \A i, j \in 1..n : Near(ev.cos[i][j], CosQ(d.pts[i], d.pts[j]), 4))      \* cosine of the reported angle
   \cup C("range", \A i, j \in 1..n : A[i][j] >= 0 /\ A[i][j] <= 18000)
   \cup C("orthogonal", \A i, j \in 1..n : IDot(d.pts[i], d.pts[j]) = 0 => Near(A[i][j], 9000, 4))
   \cup C("self", \A i \in 1..n : A[i][i] <= 8)
   \cup C("opposite", \A i, j \in 1..n : (IDot(d.pts[i], d.pts[j]) < 0 /\ IDot(d.pts[i], d.pts[j]) = -(Nrm(d.pts[i]) * Nrm(d.pts[j]))) => A[i][j] >= 17992)
   \cup C("neighbor-list", \A i \in 1..n : LET s == ev.sorted[i] IN Len(s) = n - 1 /\ {s[t] + 1 : t \in 1..(n - 1)} = Others(n, i)
             /\ \A t \in 1..(n - 2) : NearlyOrdered(A, i, s[t] + 1, s[t + 1] + 1))
Start(sz, c) == SumS(SubSeq(sz, 1, c - 1))
ClusterOf(sz, i) == CHOOSE c \in 1..Len(sz) : Start(sz, c) < i /\ i <= Start(sz, c + 1)
NeighVerdict(ev) ==
  LET d == ev.d  n == Len(d.pts)  A == ev.ang
      In(i) == {j \in Others(n, i) : ClusterOf(d.sz, j) = ClusterOf(d.sz, i)}
      Out(i) == {j \in 1..n : ClusterOf(d.sz, j) # ClusterOf(d.sz, i)}
      Low(i, S) == Min({A[i][j] : j \in S})
  IN IF \E i \in 1..n : ev.inn[i] < 0 \/ ev.inn[i] >= n \/ ev.onn[i] < 0 \/ ev.onn[i] >= n THEN {"index-range"} ELSE
   C("inside-min", \A i \in 1..n : Near(ev.inmin[i], Low(i, In(i)), 8))
   \cup C("outside-min", \A i \in 1..n : Near(ev.outmin[i], Low(i, Out(i)), 8))
   \cup C("inside-nearest", \A i \in 1..n : (ev.inn[i] + 1) \in In(i) /\ A[i][ev.inn[i] + 1] <= Low(i, In(i)) + 8)
   \cup C("outside-nearest", \A i \in 1..n : (ev.onn[i] + 1) \in Out(i) /\ A[i][ev.onn[i] + 1] <= Low(i, Out(i)) + 8)
   \cup C("inside-nearest-exact", \A i \in 1..n : \A j \in In(i) : ~ClearlyCloser(d.pts, i, j, ev.inn[i] + 1))
   \cup C("outside-nearest-exact", \A i \in 1..n : \A j \in Out(i) : ~ClearlyCloser(d.pts, i, j, ev.onn[i] + 1))
   \cup C("first-inside-position", \A i \in 1..n : LET s == ev.sorted[i]  hits == {t \in 1..(n - 1) : ClusterOf(d.sz, s[t] + 1) = ClusterOf(d.sz, i)} IN ev.pos[i] = Min(hits) - 1)
(* representation matrix forms: values in tenths *)
FormVerdict(ev) ==
  LET d == ev.d  n == 4
      least == IF d.kind = "small" THEN 10 ELSE 1          \* coefficients below 1e-3 are not part of the representation
      E(i, j) == SumS([r \in 1..2 |-> IF d.I[r][j] = i - 1 THEN d.Z[r][j] ELSE 0])
      Dense == [i \in 1..n |-> [j \in 1..n |-> E(i, j)]]
      Aff == [i \in 1..n |-> [j \in 1..n |-> Abs(E(i, j)) + Abs(E(j, i))]]
      tot(j) == SumS([i \in 1..n |-> Abs(E(i, j))])
      own(j) == SumS([i \in 1..n |-> IF d.lab[i] = d.lab[j] THEN Abs(E(i, j)) ELSE 0])
      flag(j) == \A i \in 1..n : Abs(E(i, j)) >= least => d.lab[i] = d.lab[j]
      tiny(j) == SumS([i \in 1..n |-> IF Abs(E(i, j)) < least THEN Abs(E(i, j)) ELSE 0])
      okcol(j) == tot(j) > 40 * (least - 1)
      allok == \A j \in 1..n : okcol(j)
      StatOK(s) ==
        C("preserving-flags", s.flags = [j \in 1..n |-> flag(j)])
        \cup C("preserving-errors", \A j \in 1..n : okcol(j) => Near(s.errs[j] * tot(j), Q * (tot(j) - own(j)), 3 * tot(j) + Q * tiny(j)))
        \cup C("preserving-summary", s.flag = (\A j \in 1..n : flag(j)) /\ Near(s.perc * n, 100 * Q * Cardinality({j \in 1..n : flag(j)}), 8)
                 /\ (allok => Near(s.err * n, SumS([j \in 1..n |-> s.errs[j]]), 12)))
  IN C("dense", ev.dense = Dense) \cup C("sparse", ev.sparse = Dense)
     \cup C("round-trip", ev.Z2 = d.Z /\ ev.I2 = d.I /\ ev.Z3 = d.Z /\ ev.I3 = d.I)
     \cup C("affinity", ev.aff = Aff) \cup C("sparse-affinity", ev.spaff = Aff)
     \cup UNION {StatOK(ev.stats[i]) : i \in 1..Len(ev.stats)}
SscVerdict(p, ev) ==
  IF ev.exc # "" THEN {"exception"}
  ELSE CASE ev.d.kind = "rep" -> RepV(ev) [] ev.d.kind = "angles" -> AngleVerdict(ev)
         [] ev.d.kind = "neigh" -> NeighVerdict(ev) [] ev.d.kind \in {"form", "small"} -> FormVerdict(ev)
=============================================================================
