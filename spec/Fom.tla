-------------------------------- MODULE Fom ---------------------------------
(* First order methods.  Iterative thresholding (plain and accelerated) over   *)
(* complex vectors (pairs), and the accelerated proximal gradient method with  *)
(* step estimation over real vectors.  Fixed point, scale Q.                   *)
EXTENDS Lin
Q == 10000
FQ(a, b) == FMul(a, b, Q)
QDiv(a, b) == FDiv2(a, b, 100, 100)
With(v, F(_)) == CHOOSE r \in {F(x) : x \in {v}} : TRUE
RDiv(a, d) == IF a >= 0 THEN (a + d \div 2) \div d ELSE -((-a + d \div 2) \div d)
(* ---- complex vectors ---- *)
PAdd(p, q) == <<p[1] + q[1], p[2] + q[2]>>
PSub(p, q) == <<p[1] - q[1], p[2] - q[2]>>
PMulI(c, p) == <<c[1] * p[1] - c[2] * p[2], c[1] * p[2] + c[2] * p[1]>>        \* Gaussian integer times pair
Conj(c) == <<c[1], -c[2]>>
PZero == <<0, 0>>
ZAdd(u, v) == TLCEval([i \in 1..Len(u) |-> PAdd(u[i], v[i])])
ZSub(u, v) == TLCEval([i \in 1..Len(u) |-> PSub(u[i], v[i])])
ZMulR(a, u) == TLCEval([i \in 1..Len(u) |-> <<FQ(a, u[i][1]), FQ(a, u[i][2])>>])
ZDiv(u, d) == TLCEval([i \in 1..Len(u) |-> <<RDiv(u[i][1], d), RDiv(u[i][2], d)>>])
ZUp(u) == TLCEval([i \in 1..Len(u) |-> <<u[i][1] * Q, u[i][2] * Q>>])
PSum(s) == FoldLeft(LAMBDA acc, p : PAdd(acc, p), PZero, s)
ZMul(A, x) == TLCEval([i \in 1..Len(A) |-> PSum([j \in 1..Len(x) |-> PMulI(A[i][j], x[j])])])
ZMulH(A, y) == TLCEval([j \in 1..Cols(A) |-> PSum([i \in 1..Len(y) |-> PMulI(Conj(A[i][j]), y[i])])])
ZNear(u, v, t) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : Near(u[i][1], v[i][1], t) /\ Near(u[i][2], v[i][2], t)
ZFlat(u) == [k \in 1..(2 * Len(u)) |-> u[(k + 1) \div 2][IF k % 2 = 1 THEN 1 ELSE 2]]
ZFin(u) == VFinite(ZFlat(u))
ZMax(u) == MaxAbs(ZFlat(u))
ZSq(u) == FDot(ZFlat(u), ZFlat(u), Q)
PAbs(p) == LET m == Max2(Abs(p[1]), Abs(p[2]))  f == 1 + (m \div 30000) IN f * ISqrt((p[1] \div f) * (p[1] \div f) + (p[2] \div f) * (p[2] \div f))
ZNorm(u) == LET f == 1 + (ZMax(u) \div 14000) IN f * ISqrt(SumS([k \in 1..(2 * Len(u)) |-> LET c == ZFlat(u)[k] \div f IN c * c]))
(* ---- thresholding of representation coefficients: h = [k, tau], it the iteration number ---- *)
RECURSIVE SortUp(_)
SortUp(s) == IF Len(s) <= 1 THEN s ELSE LET m == MinS(s)  i == CHOOSE j \in 1..Len(s) : s[j] = m IN <<m>> \o SortUp(SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s)))
Percent20(v) == LET n == Len(v)  s == SortUp(v)  k == (n - 1) \div 5  fr == (n - 1) % 5 IN IF n = 1 THEN s[1] ELSE s[k + 1] + RDiv(fr * (s[k + 2] - s[k + 1]), 5)
Tau(h, it, u) == CASE h.k \in {"soft", "hard"} -> h.tau
                   [] h.k = "decay" -> RDiv(h.tau, it + 1)
                   [] h.k = "default" -> Percent20([i \in 1..Len(u) |-> PAbs(u[i])])
Soft1(p, t) == LET m == PAbs(p) IN IF m <= t THEN PZero ELSE IF p[2] = 0 THEN <<Sign(p[1]) * (Abs(p[1]) - t), 0>> ELSE <<FQ(p[1], QDiv(m - t, m)), FQ(p[2], QDiv(m - t, m))>>
ThrV(h, u, t) == [i \in 1..Len(u) |-> IF h.k = "hard" THEN (IF PAbs(u[i]) > t THEN u[i] ELSE PZero) ELSE Soft1(u[i], t)]
Thr(h, it, u0) == With(u0, LAMBDA u : With(Tau(h, it, u), LAMBDA t : ThrV(h, u, t)))
ThrOK(h, it, u, a, tol) == With(Tau(h, it, u), LAMBDA t : \A i \in 1..Len(u) :
     IF h.k = "hard" THEN \/ (PAbs(u[i]) >= t - tol /\ ZNear(<<a[i]>>, <<u[i]>>, tol)) \/ (PAbs(u[i]) <= t + tol /\ ZNear(<<a[i]>>, <<PZero>>, tol))
     ELSE ZNear(<<a[i]>>, <<Soft1(u[i], t)>>, tol + 2))
(* representation in the basis [M, d]: columns of M / d are orthonormal *)
Rep(B, x) == IF B.M = <<>> THEN x ELSE ZDiv(ZMulH(B.M, x), B.d)
Syn(B, a) == IF B.M = <<>> THEN a ELSE ZDiv(ZMul(B.M, a), B.d)
Res(A, b, x) == ZSub(ZUp(b), ZMul(A, x))
(* gradient step from point w: step size 1 / den *)
GradStep(d, w, r) == ZAdd(w, ZDiv(ZMulH(d.A, r), d.den))
(* sqrt at scale Q of v at scale Q *)
SqrtQ(v) == IF v <= 0 THEN 0 ELSE IF v < 200000 THEN ISqrt(v * Q) ELSE IF v < 20000000 THEN ISqrt((v \div 100) * Q) * 10 ELSE ISqrt((v \div 10000) * Q) * 100
NextT(t) == (Q + SqrtQ(Q + 4 * FQ(t, t))) \div 2
(* ---- real problems: min |A x - b|^2 / 2 + h(x); h = [k, w] with k in l1, ball, owl1; w in hundredths ---- *)
RRes(A, b, x) == TLCEval([i \in 1..Len(A) |-> Dot(A[i], x) - b[i] * Q])
Half2(r) == FDot(r, r, Q) \div 2
RGrad(A, r) == MatTVec(A, r)
W(h, i) == (IF Len(h.w) = 1 THEN h.w[1] ELSE h.w[i]) * (Q \div 100)
Desc(s) == LET u == SortUp(s) IN [i \in 1..Len(u) |-> u[Len(u) + 1 - i]]
AbsV(v) == [i \in 1..Len(v) |-> Abs(v[i])]
HVal(h, x) == CASE h.k = "l1" -> SumS([i \in 1..Len(x) |-> FQ(W(h, i), Abs(x[i]))])
                [] h.k = "ball" -> 0
                [] h.k = "owl1" -> LET s == Desc(AbsV(x)) IN SumS([i \in 1..Len(x) |-> FQ(W(h, i), s[i])])
(* e is t times a subgradient of h at z (for the ball: in the normal cone), up to tol *)
SubGrad(h, e, z, t, tol) ==
  CASE h.k = "l1" -> \A i \in 1..Len(z) : Abs(e[i]) <= FQ(t, W(h, i)) + tol /\ (Abs(z[i]) <= tol \/ Near(e[i], Sign(z[i]) * FQ(t, W(h, i)), tol))
    [] h.k = "ball" -> /\ SumS(AbsV(z)) <= W(h, 1) + tol
                       /\ FDot(e, z, Q) >= FQ(W(h, 1), MaxAbs(e)) - tol - FQ(tol, MaxAbs(e)) - FQ(tol, W(h, 1))
    [] h.k = "owl1" -> LET s == Desc(AbsV(e)) IN
                       /\ \A k \in 1..Len(z) : SumS(SubSeq(s, 1, k)) <= FQ(t, SumS([i \in 1..k |-> W(h, i)])) + 2 * tol
                       /\ FDot(e, z, Q) >= FQ(t, HVal(h, z)) - tol - FQ(3 * tol, MaxAbs(z)) - FQ(tol, MaxAbs(e))
(* z minimises t h(z) + |z - v|^2 / 2 *)
ProxF(h, v, t, z, tol) == SubGrad(h, VSub(v, z), z, t, tol)
(* prox computed, for the model: l1 and ball over real vectors *)
SoftV(v, t) == [i \in 1..Len(v) |-> IF Abs(v[i]) <= t[i] THEN 0 ELSE Sign(v[i]) * (Abs(v[i]) - t[i])]
BallTau(v, q) == LET s == Desc(AbsV(v))  n == Len(v)
                     th(k) == RDiv(SumS(SubSeq(s, 1, k)) - q, k)
                     kk == CHOOSE k \in 1..n : s[k] > th(k) /\ \A j \in (k + 1)..n : s[j] <= th(j) IN IF SumS(s) <= q THEN 0 ELSE th(kk)
(* ordered l1: pool adjacent violators on the sorted magnitudes: max over min of averages *)
Owl(v, t, h) == LET n == Len(v)
                    rank(i) == Cardinality({j \in 1..n : Abs(v[j]) > Abs(v[i]) \/ (Abs(v[j]) = Abs(v[i]) /\ j < i)}) + 1
                    s == Desc(AbsV(v))
                    c == [k \in 1..n |-> s[k] - FQ(t, W(h, k))]
                    av(p, q) == RDiv(SumS(SubSeq(c, p, q)), q - p + 1)
                    iso(k) == MinS([p \in 1..k |-> MaxS([q \in 1..(n - k + 1) |-> av(p, k + q - 1)])]) IN
                [i \in 1..n |-> Sign(v[i]) * Max2(0, iso(rank(i)))]
ProxV(h, v, t) == CASE h.k = "l1" -> SoftV(v, [i \in 1..Len(v) |-> FQ(t, W(h, i))])
                    [] h.k = "ball" -> With(BallTau(v, W(h, 1)), LAMBDA q : SoftV(v, [i \in 1..Len(v) |-> q]))
                    [] h.k = "owl1" -> Owl(v, t, h)
(* acceleration weight; o.alpha in hundredths; th = 0 stands for the infinite start *)
NextTheta(th, al) == IF th = 0 THEN Q ELSE QDiv(2 * Q, Q + SqrtQ(Q + 4 * QDiv(RDiv(al * Q, 100), FQ(th, th))))
Blend(th, u, v) == TLCEval([i \in 1..Len(u) |-> FQ(Q - th, u[i]) + FQ(th, v[i])])
(* step estimate: twice the curvature along the move when that is larger *)
Curv(A, mv) == LET am == MatVec(A, mv) IN QDiv(2 * FDot(am, am, Q), FDot(mv, mv, Q))
Cap(v, lx) == IF lx = 0 THEN v ELSE Min2(v, lx * Q)                  \* lx = 0: no known bound
NextL(L, loc, beta, lx) == IF loc <= L THEN L ELSE Cap(Max2(loc, RDiv(L * 100, beta)), lx)
=============================================================================
