-------------------------------- MODULE L1 ----------------------------------
(* l1 minimisation under constraints and penalties.  Fixed point, scale Q.     *)
(* Optima come from definitions: basic solutions (basis pursuit), sign         *)
(* patterns (penalised least squares), alignment of A'r with x (constrained    *)
(* problems); the alternating direction method and reweighted least squares    *)
(* are specified as transitions.                                               *)
EXTENDS Fom
(* a problem has matrix A = M / d (integer M) and measurements b at scale Q *)
ApM(p, x) == [i \in 1..Len(p.M) |-> RDiv(Dot(p.M[i], x), p.d)]
ApT(p, y) == [j \in 1..Cols(p.M) |-> RDiv(SumS([i \in 1..Len(p.M) |-> p.M[i][j] * y[i]]), p.d)]
Ap(p, x) == TLCEval(ApM(p, x))
ApH(p, y) == TLCEval(ApT(p, y))
Nrm(u) == ZNorm([i \in 1..Len(u) |-> <<u[i], 0>>])
QV(a, u) == TLCEval([i \in 1..Len(u) |-> FQ(a, u[i])])
WL1(w, x) == SumS([i \in 1..Len(x) |-> FQ(w[i], Abs(x[i]))])
Ones(n) == [i \in 1..n |-> Q]
(* ---- basis pursuit: least weighted l1 norm over the basic solutions (two rows) ---- *)
Det2(M, i, j) == M[1][i] * M[2][j] - M[1][j] * M[2][i]
Pairs(p) == {s \in (1..Cols(p.M)) \X (1..Cols(p.M)) : s[1] < s[2] /\ Det2(p.M, s[1], s[2]) # 0}
Basic(p, b, s) == LET D == Det2(p.M, s[1], s[2]) IN
    [k \in 1..Cols(p.M) |-> IF k = s[1] THEN RDiv(Sign(D) * p.d * (p.M[2][s[2]] * b[1] - p.M[1][s[2]] * b[2]), Abs(D))
                            ELSE IF k = s[2] THEN RDiv(Sign(D) * p.d * (p.M[1][s[1]] * b[2] - p.M[2][s[1]] * b[1]), Abs(D)) ELSE 0]
BPBest(p, b, w, nn) == LET X == {x \in {Basic(p, b, s) : s \in Pairs(p)} : nn = 0 \/ \A i \in 1..Len(x) : x[i] >= -3} IN
    IF X = {} THEN Lim ELSE With({WL1(w, x) : x \in X}, LAMBDA V : CHOOSE v \in V : \A u \in V : v <= u)
(* ---- penalised least squares |b - A x|^2 + lam |x|_1 (two rows): least value over sign patterns ---- *)
G2(p, i, j) == p.M[1][i] * p.M[1][j] + p.M[2][i] * p.M[2][j]
Rhs1(p, b, lam, i, s) == p.M[1][i] * b[1] + p.M[2][i] * b[2] - RDiv(lam * s, 2)
Stat1(p, b, lam, i, s) == [k \in 1..Cols(p.M) |-> IF k = i THEN RDiv(Rhs1(p, b, lam, i, s), G2(p, i, i)) ELSE 0]
Stat2(p, b, lam, i, j, s, t) == LET D == G2(p, i, i) * G2(p, j, j) - G2(p, i, j) * G2(p, i, j)  u == Rhs1(p, b, lam, i, s)  v == Rhs1(p, b, lam, j, t) IN
     [k \in 1..Cols(p.M) |-> IF k = i THEN RDiv(u * G2(p, j, j) - v * G2(p, i, j), D) ELSE IF k = j THEN RDiv(v * G2(p, i, i) - u * G2(p, i, j), D) ELSE 0]
Ones1(p) == {i \in 1..Cols(p.M) : G2(p, i, i) # 0}
PatPts(p, b, lam) == {Zeros(Cols(p.M))} \cup {x \in {Stat1(p, b, lam, c[1], c[2]) : c \in Ones1(p) \X {-1, 1}} : TRUE}
        \cup {Stat2(p, b, lam, c[1][1], c[1][2], c[2], c[3]) : c \in Pairs(p) \X {-1, 1} \X {-1, 1}}
Sq(u) == FDot(u, u, Q)
LSObj(p, b, lam, x) == Sq(VSub(b, Ap(p, x))) + FQ(lam, SumS(AbsV(x)))
LSBest(p, b, lam) == With({LSObj(p, b, lam, x) : x \in PatPts(p, b, lam)}, LAMBDA V : CHOOSE v \in V : \A u \in V : v <= u)
(* ---- alternating directions: c = [model, w, nn, par, gamma], data scaled by the largest measurement ---- *)
MeanAbs(b) == RDiv(SumS(AbsV(b)), Len(b))
Clip(c, z) == [i \in 1..Len(z) |-> IF c.nn = 1 THEN Min2(c.w[i], z[i]) ELSE Min2(c.w[i], Max2(-c.w[i], z[i]))]
DualY(c, mu, y0) == CASE c.model = "bp" -> y0
                     [] c.model = "pen" -> With(Q + QDiv(c.par, mu), LAMBDA f : TLCEval([i \in 1..Len(y0) |-> QDiv(y0[i], f)]))
                     [] c.model = "con" -> With(Nrm(y0), LAMBDA q : IF q = 0 THEN y0 ELSE QV(Max2(0, Q - QDiv(QDiv(c.par, mu), q)), y0))
AdmStep(p, c, b, mu, s) ==
  With(TLCEval([i \in 1..Len(s.x) |-> QDiv(s.x[i], mu)]), LAMBDA xm :
   With(DualY(c, mu, VAdd(Ap(p, VSub(s.z, xm)), TLCEval([i \in 1..Len(b) |-> QDiv(b[i], mu)]))), LAMBDA y :
    With(ApH(p, y), LAMBDA aty : With(TLCEval(Clip(c, VAdd(aty, xm))), LAMBDA z :
      [z |-> z, y |-> y, rd |-> VSub(z, aty), x |-> VSub(s.x, QV(FQ(c.gamma, mu), VSub(z, aty)))]))))
AdmTwo(p, c, b, mu, s) == With(AdmStep(p, c, b, mu, s), LAMBDA t : AdmStep(p, c, b, mu, t))
(* stationarity of sum w |x| (+ nonnegativity) against g = A'r / level: level w_i bounds g_i and is attained where x_i # 0 *)
Aligned(c, g, lev, x, tol) == \A i \in 1..Len(x) : LET m == FQ(lev, c.w[i]) IN
     /\ g[i] <= m + tol /\ (c.nn = 1 \/ g[i] >= -m - tol)
     /\ (c.nn = 1 => x[i] >= 0)
     /\ (Abs(x[i]) <= tol \/ Near(g[i], Sign(x[i]) * m, tol))
Level(c, g) == MaxS([i \in 1..Len(g) |-> QDiv(IF c.nn = 1 THEN g[i] ELSE Abs(g[i]), c.w[i])])
(* ---- reweighted least squares: x' solves A x' = b with x' / |x|^(2 p) orthogonal to the null space (three unknowns, two rows) ---- *)
NullV(M) == <<M[1][2] * M[2][3] - M[1][3] * M[2][2], M[1][3] * M[2][1] - M[1][1] * M[2][3], M[1][1] * M[2][2] - M[1][2] * M[2][1]>>
Weight(x, h) == IF h = 2 THEN FQ(x, x) ELSE Abs(x)           \* h = 2 p with p in {1, 1/2}
(* exact step in cofactor form: x' = W A' (A W A')^-1 b with W = diag(weight) *)
FocStep(M, b, x, h) ==
  LET n == Len(x)  w == [i \in 1..n |-> Weight(x[i], h)]
      g(i, j) == SumS([k \in 1..n |-> M[i][k] * M[j][k] * w[k]])
      D == FQ(g(1, 1), g(2, 2)) - FQ(g(1, 2), g(1, 2))
      u1 == QDiv(FQ(g(2, 2), b[1]) - FQ(g(1, 2), b[2]), D)  u2 == QDiv(FQ(g(1, 1), b[2]) - FQ(g(1, 2), b[1]), D) IN
  [k \in 1..n |-> FQ(w[k], M[1][k] * u1 + M[2][k] * u2)]
(* ---- spectral projected gradient over complex vectors ---- *)
ZL1(x) == SumS([i \in 1..Len(x) |-> PAbs(x[i])])
ZInf(x) == MaxS([i \in 1..Len(x) |-> PAbs(x[i])])
ZRe(u, v) == FDot(ZFlat(u), ZFlat(v), Q)
ZScale(a, u) == TLCEval([i \in 1..Len(u) |-> <<FQ(a, u[i][1]), FQ(a, u[i][2])>>])
(* imaginary part of u' v *)
ZIm(u, v) == SumS([i \in 1..Len(u) |-> FQ(u[i][1], v[i][2]) - FQ(u[i][2], v[i][1])])
(* v projects onto z in the l1 ball of radius t *)
ZBallProx(v, t, z, tol) == With(ZSub(v, z), LAMBDA e : /\ ZL1(z) <= t + tol
     /\ ZRe(e, z) >= FQ(t, ZInf(e)) - tol - FQ(tol, ZInf(e)) - FQ(tol, t))
(* gap of the problem min |b - A x|^2 / 2 over the ball of radius t at x with residual r and gradient g = -A'r *)
ZGap(r, b, g, t) == ZRe(r, ZSub(r, b)) + FQ(t, ZInf(g))
=============================================================================
