------------------------------- MODULE Convex -------------------------------
(* Convex sets and functions.  Parameters and points are given in half units   *)
(* (h = 2x, exact); recorded results are fixed point of scale CS.              *)
EXTENDS Lin
CS == 10080
HU == CS \div 2                       \* one half unit
CM(a, b) == FMul(a, b, CS)
CDot(u, v) == FDot(u, v, CS)
Sc(v) == [i \in 1..Len(v) |-> v[i] * HU]
NormF == 20000
(* Euclidean norm of a fixed point vector (at most 4 entries) *)
VNorm(v) == LET f == 1 + MaxAbs(v) \div NormF IN
            f * ISqrt(SumS([i \in 1..Len(v) |-> (v[i] \div f) * (v[i] \div f)]))
VNorm1(v) == SumS([i \in 1..Len(v) |-> Abs(v[i])])
SqI(v) == SumS([i \in 1..Len(v) |-> v[i] * v[i]])
CenterH(d, n) == IF d.b = <<>> THEN Zeros(n) ELSE d.b
BndL(d, i) == IF d.l = <<>> THEN -Lim ELSE IF Len(d.l) = 1 THEN d.l[1] ELSE d.l[i]
BndU(d, i) == IF d.u = <<>> THEN Lim ELSE IF Len(d.u) = 1 THEN d.u[1] ELSE d.u[i]
Single(d, i) == IF Len(d.b) = 1 THEN d.b[1] ELSE d.b[i]
(* -------- exact membership of a point given in half units -------- *)
Member(d, x) ==
  LET n == Len(x)  r == VSub(x, CenterH([b |-> IF Len(d.b) = n THEN d.b ELSE <<>>], n))
  IN CASE d.k = "zero" -> \A i \in 1..n : x[i] = 0
       [] d.k = "identity" -> TRUE
       [] d.k = "singleton" -> \A i \in 1..n : x[i] = Single(d, i)
       [] d.k = "box" -> \A i \in 1..n : BndL(d, i) <= x[i] /\ x[i] <= BndU(d, i)
       [] d.k = "l1" -> VNorm1(r) <= d.q
       [] d.k \in {"l2", "ball"} -> SqI(r) <= d.q * d.q
       [] d.k = "linf" -> \A i \in 1..n : Abs(x[i]) <= d.q
       [] d.k = "upper" -> \A i \in 1..n : x[i] <= d.q
       [] d.k = "conic" -> x[n] >= 0 /\ SqI(SubSeq(x, 1, n - 1)) <= x[n] * x[n]
       [] d.k = "affine" -> MatVec(d.A, x) = d.b
       [] d.k = "boxaff" -> /\ \A i \in 1..n : BndL(d, i) <= x[i] /\ x[i] <= BndU(d, i)
                            /\ Dot(d.A[1], x) = d.q
       [] d.k = "l1A" -> VNorm1(VSub(MatVec(d.A, x), d.b)) <= d.q
       [] d.k = "l2A" -> SqI(VSub(MatVec(d.A, x), d.b)) <= d.q * d.q
(* -------- p (fixed point) is the nearest point of the set to x (half units) -------- *)
CTol == 14
ClipTo(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
Nearest(d, xh, p) ==
  LET n == Len(xh)  x == Sc(xh)  q == d.q * HU
      b == Sc(CenterH([b |-> IF Len(d.b) = n THEN d.b ELSE <<>>], n))
      e == TLCEval(VSub(x, p))  pb == TLCEval(VSub(p, b))
  IN CASE d.k = "zero" -> VNear(p, Zeros(n), 0)
       [] d.k = "identity" -> VNear(p, x, 1)
       [] d.k = "singleton" -> \A i \in 1..n : Near(p[i], Single(d, i) * HU, 1)
       [] d.k = "box" -> \A i \in 1..n : Near(p[i], HU * ClipTo(xh[i], BndL(d, i), BndU(d, i)), 2)
       [] d.k = "linf" -> \A i \in 1..n : Near(p[i], HU * ClipTo(xh[i], -d.q, d.q), 4)
       [] d.k = "upper" -> \A i \in 1..n : Near(p[i], HU * Min2(xh[i], d.q), 2)
       (* variational inequality <x - p, z - p> <= 0 at the extreme points *)
       [] d.k = "l1" -> /\ VNorm1(pb) <= q + CTol
                        /\ \A i \in 1..n : \A s \in {-1, 1} :
                             CDot(e, [t \in 1..n |-> (IF t = i THEN s * q ELSE 0) - pb[t]]) <= 6 * CTol
       [] d.k \in {"l2", "ball"} -> /\ VNorm(pb) <= q + CTol
                        /\ CDot(e, pb) >= CM(q, VNorm(e)) - 10 * CTol
       [] d.k = "conic" -> /\ p[n] >= VNorm(SubSeq(p, 1, n - 1)) - CTol
                           /\ Abs(CDot(e, p)) <= 6 * CTol
                           /\ VNorm(SubSeq(e, 1, n - 1)) <= CTol - e[n]
       [] d.k = "affine" -> /\ VNear(MatVec(d.A, p), Sc(d.b), 4 * CTol)
                            /\ \A t \in 1..Len(d.null) : Abs(Dot(d.null[t], e)) <= 4 * CTol
(* no grid point of the set is closer: definition of the projection itself *)
GridSet(n) == [1..n -> -6..6]
Dist2(u, v) == LET w == VSub(u, v) IN CDot(w, w)
(* -------- convex functions: value (fixed point) at a fixed point vector -------- *)
RECURSIVE SortDesc(_)
SortDesc(s) == IF Len(s) <= 1 THEN s
   ELSE LET m == MaxS(s)  i == CHOOSE j \in 1..Len(s) : s[j] = m
        IN <<m>> \o SortDesc(SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s)))
AbsV(v) == [i \in 1..Len(v) |-> Abs(v[i])]
Wt(d, i) == IF Len(d.w) = 1 THEN d.w[1] ELSE d.w[i]        \* weights in half units
FVal(d, z) ==
  LET n == Len(z) IN
  CASE d.f = "zero" -> 0
    [] d.f \in {"l1", "l1_pos"} -> SumS([i \in 1..n |-> (Wt(d, i) * Abs(z[i])) \div 2])
    [] d.f = "l2" -> (d.w[1] * VNorm(z)) \div 2
    [] d.f = "owl1" -> LET s == SortDesc(AbsV(z)) IN SumS([i \in 1..n |-> (Wt(d, i) * s[i]) \div 2])
    [] d.f = "set" -> 0
(* z minimises t f(z) + |z - x|^2 / 2 : Fenchel conditions; th = 2t *)
ProxOK(d, xh, th, z) ==
  LET n == Len(xh)  x == Sc(xh)  e == TLCEval(VSub(x, z)) IN
  CASE d.f = "zero" -> VNear(z, x, 1)
    [] d.f = "l1" -> /\ \A i \in 1..n : 4 * Abs(e[i]) <= th * Wt(d, i) * CS + 4 * CTol
                     /\ Abs(4 * CDot(e, z) - 2 * th * FVal(d, z)) <= 40 * CTol
    [] d.f = "l2" -> /\ 4 * VNorm(e) <= th * d.w[1] * CS + 8 * CTol
                     /\ Abs(4 * CDot(e, z) - 2 * th * FVal(d, z)) <= 60 * CTol
    [] d.f = "l1_pos" -> \A i \in 1..n : /\ z[i] >= 0
                     /\ Near(4 * z[i], Max2(0, 4 * x[i] - th * Wt(d, i) * CS), 4 * 4)
    [] d.f = "owl1" -> LET s == SortDesc(AbsV(e)) IN
                     /\ \A k \in 1..n : 4 * SumS(SubSeq(s, 1, k)) <= th * CS * SumS([i \in 1..k |-> Wt(d, i)]) + 8 * CTol
                     /\ Abs(4 * CDot(e, z) - 2 * th * FVal(d, z)) <= 60 * CTol
    [] d.f = "set" -> Nearest(d.s, xh, z)
(* -------- smooth functions: exact gradient and value at half-unit points --------   *)
LN2 == 6987                           \* ln 2 at scale CS
Log2H(h) == CASE h = 1 -> -1 [] h = 2 -> 0 [] h = 4 -> 1 [] h = 8 -> 2 [] h = 16 -> 3
(* the smooth dual of c|.|_1 with strength mu about x0: -max_z <x,z> - c|z|_1 - |z - x0|^2/(2 mu) *)
DualMu(d) == IF d.q = 0 THEN 1 ELSE d.q
DualC(d, n) == IF d.P = <<>> THEN Zeros(n) ELSE d.P[1]
Soft(y, t) == IF y > t THEN y - t ELSE IF y < -t THEN y + t ELSE 0
DualArg(d, x) == [i \in 1..Len(x) |-> Soft(DualC(d, Len(x))[i] + DualMu(d) * x[i], DualMu(d) * d.c[1])]
SVal(d, x) ==                         \* x in half units, result at scale CS
  LET n == Len(x) IN
  CASE d.f = "constant" -> d.c[1] * HU
    [] d.f \in {"entropy", "entropy_vg"} -> -SumS([i \in 1..n |-> (x[i] * Log2H(x[i]) * LN2) \div 2])
    [] d.f = "huber" -> SumS([i \in 1..n |-> IF Abs(x[i]) <= d.c[1] THEN (x[i] * x[i] * HU) \div (2 * d.c[1])
                                             ELSE (2 * Abs(x[i]) - d.c[1]) * (HU \div 2)])
    [] d.f = "linear" -> SumS([i \in 1..n |-> d.c[i] * x[i] * (HU \div 2)]) + d.r * HU
    [] d.f = "quad" -> LET Px == MatVec(d.P, x) IN
          (Dot(x, Px) * (HU \div 2)) \div 2 + (IF d.c = <<>> THEN 0 ELSE Dot(d.c, x) * (HU \div 2)) + d.r * HU
    [] d.f = "quad_error" -> LET rr == VSub(MatVec(d.P, x), d.c) IN (SqI(rr) * (HU \div 2)) \div 2
    [] d.f = "translate_quad" -> LET y == VAdd(x, d.c) IN (SqI(y) * (HU \div 2)) \div 2
    [] d.f = "moreau_l1" -> SumS([i \in 1..n |-> IF Abs(x[i]) <= d.c[1] THEN (x[i] * x[i] * HU) \div (2 * d.c[1])
                                             ELSE (2 * Abs(x[i]) - d.c[1]) * (HU \div 2)])
    [] d.f = "dual_l1" -> LET p == DualArg(d, x)  o == DualC(d, n)  mu == DualMu(d) IN
          (CS * SumS([i \in 1..n |-> (p[i] - o[i]) * (p[i] - o[i]) + 2 * mu * d.c[1] * Abs(p[i]) - 2 * mu * x[i] * p[i]])) \div (8 * mu)
    [] d.f = "build_cubic" -> SumS([i \in 1..n |-> (x[i] * x[i] * x[i] * HU) \div 4])
SGrad(d, x) ==
  LET n == Len(x) IN
  CASE d.f = "constant" -> Zeros(n)
    [] d.f \in {"entropy", "entropy_vg"} -> [i \in 1..n |-> -(Log2H(x[i]) * LN2) - CS]
    [] d.f \in {"huber", "moreau_l1"} -> [i \in 1..n |-> (x[i] * CS) \div Max2(d.c[1], Abs(x[i]))]
    [] d.f = "linear" -> [i \in 1..n |-> d.c[i] * HU]
    [] d.f = "quad" -> LET Px == MatVec(d.P, x) IN [i \in 1..n |-> (Px[i] + (IF d.c = <<>> THEN 0 ELSE d.c[i])) * HU]
    [] d.f = "quad_error" -> LET g == MatTVec(d.P, VSub(MatVec(d.P, x), d.c)) IN [i \in 1..n |-> g[i] * HU]
    [] d.f = "translate_quad" -> [i \in 1..n |-> (x[i] + d.c[i]) * HU]
    [] d.f = "dual_l1" -> LET p == DualArg(d, x) IN [i \in 1..n |-> -p[i] * HU]
    [] d.f = "build_cubic" -> [i \in 1..n |-> (3 * x[i] * x[i] * HU) \div 2]
(* log det of a symmetric positive definite 2x2 integer matrix with determinant a power of two *)
Det2(X) == X[1][1] * X[2][2] - X[1][2] * X[2][1]
Log2I(k) == CASE k = 1 -> 0 [] k = 2 -> 1 [] k = 4 -> 2 [] k = 8 -> 3
LdVal(d, X) == -((d.q * Log2I(Det2(X)) * LN2) \div 2) + (IF d.P = <<>> THEN 0 ELSE CS * (Dot(d.P[1], X[1]) + Dot(d.P[2], X[2])))
LdGrad(d, X) == [i \in 1..2 |-> [j \in 1..2 |->
     -((d.q * HU * (IF i = j THEN X[3 - i][3 - i] ELSE -X[i][j])) \div Det2(X)) + (IF d.P = <<>> THEN 0 ELSE CS * d.P[i][j])]]
=============================================================================
