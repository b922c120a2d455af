-------------------------------- MODULE Bsbl --------------------------------
(* Block sparse Bayesian learning.  Prior of block i: N(0, g_i B), B the AR(1)  *)
(* Toeplitz matrix of coefficient r; noise variance lam.  One iteration turns   *)
(* (g, r, lam) into the posterior mean and new (g, r, lam).  Scale Q.           *)
EXTENDS Lin
(* call by value *)
With(v, F(_)) == CHOOSE r \in {F(x) : x \in {v}} : TRUE
Q == 10000
FQ(a, b) == FMul(a, b, Q)
QDiv(a, b) == FDiv2(a, b, 100, 100)
QMul(A0, B0) == LET P(A, T) == [i \in 1..Len(A) |-> [j \in 1..Len(T) |-> FDot(A[i], T[j], Q)]] IN With(A0, LAMBDA A : With(Transp(B0), LAMBDA T : P(A, T)))
QVec(A0, v0) == With(A0, LAMBDA A : With(v0, LAMBDA v : [i \in 1..Len(A) |-> FDot(A[i], v, Q)]))
MAdd(A0, B0) == With(A0, LAMBDA A : With(B0, LAMBDA B : [i \in 1..Len(A) |-> VAdd(A[i], B[i])]))
MSub(A0, B0) == With(A0, LAMBDA A : With(B0, LAMBDA B : [i \in 1..Len(A) |-> VSub(A[i], B[i])]))
MSc(a, A) == TLCEval([i \in 1..Len(A) |-> [j \in 1..Cols(A) |-> FQ(a, A[i][j])]])
Tr(A) == SumS([i \in 1..Len(A) |-> A[i][i]])
RECURSIVE Pow(_, _)
Pow(r, k) == IF k = 0 THEN Q ELSE FQ(r, Pow(r, k - 1))
Ar(r, b) == Mat(b, b, LAMBDA i, j : Pow(r, Abs(i - j)))
(* closed form of its inverse, to be divided by 1 - r^2 *)
ArInvN(r, b) == Mat(b, b, LAMBDA i, j : IF b = 1 THEN Q ELSE IF i = j THEN (IF i = 1 \/ i = b THEN Q ELSE Q + FQ(r, r)) ELSE IF Abs(i - j) = 1 THEN -r ELSE 0)
ArDen(r, b) == IF b = 1 THEN Q ELSE Q - FQ(r, r)
(* inverse of a symmetric positive definite matrix of size one to three by cofactors *)
Det2x(a, b, c, d) == FQ(a, d) - FQ(b, c)
InvV(A) ==
  CASE Len(A) = 1 -> << <<QDiv(Q, A[1][1])>> >>
    [] Len(A) = 2 -> LET d == Det2x(A[1][1], A[1][2], A[2][1], A[2][2]) IN << <<QDiv(A[2][2], d), -QDiv(A[1][2], d)>>, <<-QDiv(A[2][1], d), QDiv(A[1][1], d)>> >>
    [] Len(A) = 3 -> LET co(i, j) == LET p == IF i = 1 THEN 2 ELSE 1  q == IF i = 3 THEN 2 ELSE 3  s == IF j = 1 THEN 2 ELSE 1  t == IF j = 3 THEN 2 ELSE 3 IN
                                      (IF (i + j) % 2 = 0 THEN 1 ELSE -1) * Det2x(A[p][s], A[p][t], A[q][s], A[q][t])
                         adj(K) == With(FQ(A[1][1], K[1][1]) + FQ(A[1][2], K[1][2]) + FQ(A[1][3], K[1][3]), LAMBDA d : Mat(3, 3, LAMBDA i, j : QDiv(K[j][i], d))) IN
                       With(Mat(3, 3, co), adj)
InvM(M) == With(M, InvV)
SubDict(Phi, i, b) == Mat(Len(Phi), b, LAMBDA r, c : Phi[r][(i - 1) * b + c] * Q)
DiagQ(n, v) == Mat(n, n, LAMBDA i, j : IF i = j THEN v ELSE 0)
(* posterior of one iteration: S0[i] prior block covariances, act[i] active *)
Posterior(Phi, y, b, S0, lam, act) ==
  LET m == Len(Phi)  nb == Len(S0)
      G(D, DT, S) == FoldLeft(LAMBDA acc, i : IF act[i] THEN MAdd(acc, QMul(QMul(D[i], S[i]), DT[i])) ELSE acc, DiagQ(m, lam), [t \in 1..nb |-> t])
      Moments(S, Gi, Hy, HP) ==
        [mu |-> [i \in 1..nb |-> IF act[i] THEN QVec(S[i], Hy[i]) ELSE Zeros(b)],
         Sx |-> [i \in 1..nb |-> IF act[i] THEN MSub(S[i], QMul(QMul(S[i], HP[i]), S[i])) ELSE DiagQ(b, 0)], Hy |-> Hy, HP |-> HP, Gi |-> Gi]
      Build(D, DT, S, Gi) == With(QVec(Gi, VScale(Q, y)), LAMBDA w :
          With([i \in 1..nb |-> QVec(DT[i], w)], LAMBDA Hy : With([i \in 1..nb |-> QMul(QMul(DT[i], Gi), D[i])], LAMBDA HP : Moments(S, Gi, Hy, HP)))) IN
   With([i \in 1..nb |-> SubDict(Phi, i, b)], LAMBDA D : With([i \in 1..nb |-> Transp(D[i])], LAMBDA DT : With(S0, LAMBDA S : With(InvM(G(D, DT, S)), LAMBDA Gi : Build(D, DT, S, Gi)))))
Outer(u) == Mat(Len(u), Len(u), LAMBDA i, j : FQ(u[i], u[j]))
Second(P) == TLCEval([i \in 1..Len(P.mu) |-> MAdd(P.Sx[i], Outer(P.mu[i]))])
(* correlation coefficient: ratio of mean first off-diagonal to mean diagonal of sum of Cov_i / g_i *)
CorrSum(C, g, act, b) == FoldLeft(LAMBDA acc, i : IF act[i] /\ g[i] > 0 THEN MAdd(acc, Mat(b, b, LAMBDA s, t : QDiv(C[i][s][t], g[i]))) ELSE acc, DiagQ(b, 0), [t \in 1..Len(C) |-> t])
CorrV(B0, learn) == LET b == Len(B0)  m0 == Tr(B0) \div b  m1 == SumS([i \in 1..(b - 1) |-> B0[i][i + 1]]) \div (b - 1)  r == QDiv(m1, m0) IN
   IF b = 1 \/ learn = 0 THEN 0 ELSE IF r > 9900 THEN 9900 ELSE IF r < -9900 THEN -9900 ELSE r
Corr(B0, learn) == With(B0, LAMBDA B : CorrV(B, learn))
TrP(A, B) == SumS([i \in 1..Len(A) |-> FDot(A[i], [j \in 1..Len(B) |-> B[j][i]], Q)])
TrProd(A0, B0) == With(A0, LAMBDA A : With(B0, LAMBDA B : TrP(A, B)))
(* weights by expectation maximisation and by bound optimisation *)
GammaEM(C, r, b, act) == [i \in 1..Len(C) |-> IF act[i] THEN QDiv(TrProd(ArInvN(r, b), C[i]), ArDen(r, b)) \div b ELSE 0]
Root(v) == IF v <= 0 THEN 0 ELSE IF v < 200000 THEN ISqrt(v * Q) ELSE ISqrt((v \div 100) * Q) * 10        \* sqrt at scale Q
Over(a, b) == IF b <= 0 THEN 0 ELSE QDiv(a, b)
GammaBO(g, P, r, b, act) == [i \in 1..Len(g) |-> IF act[i] THEN LET Up(B) ==
     FQ(g[i], Over(Root(FDot(P.Hy[i], QVec(B, P.Hy[i]), Q)), Root(TrProd(P.HP[i], B)))) IN With(Ar(r, b), Up) ELSE 0]
(* noise variance; res2 is the squared residual norm *)
LamLow(Phi, P, b, res2) == (res2 + SumS([i \in 1..Len(P.mu) |-> TrProd(QMul(SubDict(Phi, i, b), P.Sx[i]), Transp(SubDict(Phi, i, b)))])) \div Len(Phi)
LamHigh(Phi, P, b, res2, lam, g, r, act) ==
  LET k == SumS([i \in 1..Len(g) |-> IF act[i] /\ g[i] > 0 THEN b * Q - QDiv(QDiv(TrProd(P.Sx[i], ArInvN(r, b)), ArDen(r, b)), g[i]) ELSE 0]) IN (res2 + FQ(lam, k)) \div Len(Phi)
Resid(Phi, y, mu, b) == TLCEval([t \in 1..Len(Phi) |-> y[t] * Q - SumS([i \in 1..Len(mu) |-> SumS([c \in 1..b |-> Phi[t][(i - 1) * b + c] * mu[i][c]])])])
=============================================================================
