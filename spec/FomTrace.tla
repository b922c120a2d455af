------------------------------ MODULE FomTrace ------------------------------
EXTENDS Fom, TraceBase
Rel(a, b, p, t) == Near(a, b, t + Abs(b) \div p)
(* ---------------- iterative thresholding ---------------- *)
IStart(d) == [x |-> ZUp(d.x0), z |-> ZUp(d.x0), t |-> Q, it |-> 0, r |-> Res(d.A, d.b, ZUp(d.x0))]
Base(d, s) == IF d.alg = "fista" THEN s.z ELSE s.x
ITol(d, s) == 12 + (ZMax(Base(d, s)) \div 2000)
ISelf(d, s) == C("residual", ZNear(s.r, Res(d.A, d.b, Base(d, s)), ITol(d, s))) \cup C("residual-norm", Rel(s.r2, ZSq(s.r), 500, 10 + ZMax(s.r) \div 1000))
IFollow(d, a, s) ==
  LET u == GradStep(d, Base(d, a), a.r)  tol == ITol(d, a) IN
   C("threshold", With(Rep(d.B, u), LAMBDA v : With(Rep(d.B, s.x), LAMBDA w : ThrOK(d.h, a.it, v, w, tol))))
   \cup C("change", Rel(s.ch, ZNorm(ZSub(s.x, a.x)), 500, 12))
   \cup C("counts", s.it = a.it + 1)
   \cup (IF d.alg = "ista" THEN {} ELSE
         C("momentum", Rel(s.t, NextT(a.t), 1000, 6)) \cup
         C("extrapolation", ZNear(s.z, ZAdd(s.x, ZMulR(QDiv(a.t - Q, s.t), ZSub(s.x, a.x))), tol)))
Thresh2(d) == FQ(FQ(ZSq(ZUp(d.b)), d.o.rt * 10), d.o.rt * 10)
Quiet(d, s, m) == s.r2 <= Thresh2(d) + m \/ s.ch <= d.o.xt + (m \div 4)
Loud(d, s, m) == s.r2 > Thresh2(d) - m /\ s.ch > d.o.xt - 2
IstVerdict(d, ev) ==
  LET T == ev.sts  n == Len(T)  P(k) == IF k = 1 THEN IStart(d) ELSE T[k - 1]
      early(k) == k = 1 /\ FALSE IN
  IF \E k \in 1..n : ~(ZFin(T[k].x) /\ ZFin(T[k].z) /\ ZFin(T[k].r)) THEN {"not-finite"} ELSE
  UNION {UNION {ISelf(d, T[k]) \cup (IF T[k].it = a.it THEN C("stays", ZNear(T[k].x, a.x, 1)) \cup C("stopped", Quiet(d, T[k], 40))
                                     ELSE IFollow(d, a, T[k]) \cup C("going", k = 1 \/ Loud(d, a, 40))) : a \in {P(k)}} : k \in 1..n}
  \cup C("limit", \A k \in 1..n : T[k].it <= k) \cup C("jit", ev.jit = 1)
(* ---------------- accelerated proximal gradient ---------------- *)
FStart(d, s1) == LET x0 == VScale(Q, d.x0) IN [x |-> s1.x0, z |-> s1.x0, L |-> d.o.L0 * Q, th |-> 0, it |-> 0]
Sz(d) == 1 + SumS([i \in 1..Len(d.A) |-> SumS([j \in 1..Cols(d.A) |-> Abs(d.A[i][j])])])
FSelf(d, s) ==
  LET tol == Sz(d) + 4 + MaxAbs(s.x) \div 2000 IN
   C("image", VNear(s.Ax, MatVec(d.A, s.x), tol) /\ VNear(s.Ay, MatVec(d.A, s.y), tol) /\ VNear(s.Az, MatVec(d.A, s.z), Sz(d) + 4 + MaxAbs(s.z) \div 1000))
   \cup C("smooth-gradient", VNear(s.gAx, VSub(s.Ax, VScale(Q, d.b)), 4 + MaxAbs(s.Ax) \div 5000) /\ VNear(s.gAy, VSub(s.Ay, VScale(Q, d.b)), 4 + MaxAbs(s.Ay) \div 5000))
   \cup C("gradient", VNear(s.gy, RGrad(d.A, s.gAy), tol + MaxAbs(s.gAy) \div 2000) /\ VNear(s.gx, RGrad(d.A, s.gAx), tol + MaxAbs(s.gAx) \div 2000))
   \cup C("smooth-value", Rel(s.fx, Half2(s.gAx), 500, 8 + MaxAbs(s.gAx) \div 2000) /\ Rel(s.fy, Half2(s.gAy), 500, 8 + MaxAbs(s.gAy) \div 2000))
   \cup C("nonsmooth-value", IF d.h.k = "ball" THEN s.Cx \in {0, Lim} /\ s.Cz = 0 ELSE Rel(s.Cx, HVal(d.h, s.x), 1000, 10) /\ Rel(s.Cz, HVal(d.h, s.z), 1000, 10))
   \cup C("norm", Rel(s.nx, ZNorm([i \in 1..Len(s.x) |-> <<s.x[i], 0>>]), 500, 8))
FFollow(d, a, s) ==
  LET L == RDiv(a.L * d.o.alpha, 100)  th == s.th  step == QDiv(Q, FQ(th, L))
      tol == 14 + FQ(8 * Sz(d), step) + (MaxAbs(a.z) \div 1000) + (FQ(step, MaxAbs(s.gy)) \div 400)  mv == VSub(s.x, s.y)  big == MaxAbs(mv) IN
   C("counts", s.it = a.it + 1)
   \cup C("weight", Rel(th, NextTheta(a.th, d.o.alpha), 500, 12))
   \cup C("blend-y", VNear(s.y, Blend(th, a.x, a.z), 6 + MaxAbs(a.z) \div 1000)) \cup C("blend-x", VNear(s.x, Blend(th, a.x, s.z), 6 + MaxAbs(s.z) \div 1000))
   \cup C("prox", step > 120000 \/ ProxF(d.h, VSub(a.z, [i \in 1..Len(s.gy) |-> FQ(step, s.gy[i])]), step, s.z, tol))
   \cup C("change", Rel(s.ndx, ZNorm([i \in 1..Len(s.x) |-> <<s.x[i] - a.x[i], 0>>]), 500, 8))
   \cup C("step-estimate", IF big < 400 THEN s.L >= L - 30 /\ (d.o.lx = 0 \/ s.L <= Max2(d.o.lx * Q, L) + 30)
                           ELSE LET loc == Curv(d.A, mv)  er == 30 + loc \div (big \div 20) IN
                                \/ Rel(s.L, NextL(L, loc, d.o.beta, d.o.lx), 400, er) \/ (Near(loc, L, er) /\ (Rel(s.L, L, 400, er) \/ Rel(s.L, Cap(Max2(loc, RDiv(L * 100, d.o.beta)), d.o.lx), 400, er))))
(* the last state has converged: minus the gradient is a subgradient of h *)
Optimal(d, s) == SubGrad(d.h, VScale(-1, s.gx), s.x, Q, 60)
FomVerdict1(d, ev) ==
  LET T == ev.sts  n == Len(T)  P(k) == IF k = 1 THEN FStart(d, ev) ELSE T[k - 1] IN
  IF \E k \in 1..n : ~(VFinite(T[k].x) /\ VFinite(T[k].z) /\ VFinite(T[k].gx)) THEN {"not-finite"} ELSE
  C("start", IF d.h.k = "ball" THEN ProxF(d.h, VScale(Q, d.x0), Q, ev.x0, 12) ELSE ev.x0 = VScale(Q, d.x0))
  \cup UNION {UNION {FSelf(d, T[k]) \cup (IF T[k].it = a.it THEN C("stays", VNear(T[k].x, a.x, 1)) \cup C("stopped", T[k].ndx <= 2) ELSE FFollow(d, a, T[k]) \cup C("going", k = 1 \/ a.ndx >= 0)) : a \in {P(k)}} : k \in 1..n}
  \cup C("limit", \A k \in 1..n : T[k].it <= k)
  \cup FSelf(d, ev.last) \cup C("converged", ev.last.it < 3000 => Optimal(d, ev.last)) \cup C("optimal", Optimal(d, ev.last))
  \cup C("loose", ev.loose.it <= ev.last.it /\ ev.loose.ndx <= FQ(100, Max2(ev.loose.nx, Q)) + 2)
  \cup C("jit", ev.jit = 1)
(* the affine map helper: forward, adjoint, translated; with and without matrix and offset *)
Affine(d, R) == LET n == Cols(d.A)  x == [i \in 1..n |-> i]  b == d.b  AT == MatTVec(d.A, b)  F == MatVec(d.A, x)
                    want == << <<F, AT, VAdd(F, b)>>, <<F, AT, F>>, <<b, b, VAdd(b, b)>>, <<b, b, b>> >> IN
   R = <<>> \/ \A k \in 1..4 : \A m \in 1..3 : R[k][m] = VScale(Q, want[k][m])
FomVerdict(p, ev) == IF ev.exc # "" THEN {"exception"} ELSE IF ev.d.alg = "fom" THEN FomVerdict1(ev.d, ev) \cup C("affine", Affine(ev.d, ev.aff)) ELSE IstVerdict(ev.d, ev)
=============================================================================
