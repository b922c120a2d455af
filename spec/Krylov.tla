------------------------------- MODULE Krylov -------------------------------
(* Conjugate directions of a positive definite system N z = g, preconditioned *)
(* by M: the reference the CG, PCG and LSQR recurrences are judged against.   *)
(* N, M, g are integer, everything else is fixed point of scale KQ.           *)
EXTENDS Lin
KQ == 30000
KM(a, b) == FMul(a, b, KQ)
KD(a, b) == FDiv2(a, b, 150, 200)
KDot(u, v) == SumS([i \in 1..Len(u) |-> KM(u[i], v[i])])
KAxpy(u, a, v) == TLCEval([i \in 1..Len(u) |-> u[i] + KM(a, v[i])])
KNorm(v) == LET f == 1 + MaxAbs(v) \div 16000 IN f * ISqrt(SumS([i \in 1..Len(v) |-> (v[i] \div f) * (v[i] \div f)]))
KUnit(v) == LET m == KNorm(v) IN TLCEval([i \in 1..Len(v) |-> KD(v[i], m)])
KSc(v) == TLCEval([i \in 1..Len(v) |-> v[i] * KQ])
Ident(n) == [i \in 1..n |-> Basis(n, i)]
(* remove from u its components along the orthonormal V *)
Orth(u, V) == FoldLeft(LAMBDA z, v : KAxpy(z, -KDot(z, v), v), u, V)
(* remove from v its N-components along the directions W *)
Conj(v, W, NW) == FoldLeft(LAMBDA z, i : KAxpy(z, -KD(KDot(z, NW[i]), KDot(W[i], NW[i])), W[i]), v, [i \in 1..Len(W) |-> i])
KNil == [V |-> <<>>, W |-> <<>>, NW |-> <<>>, next |-> <<>>, gap |-> KQ, lo |-> KQ]
KRoom == 100        \* below: the space is invariant, nothing is left to search
Extend(S, N, M, v) ==
  LET w == Conj(v, S.W, S.NW)  nw == MatVec(N, w)
      u == KUnit(MatVec(M, MatVec(N, v)))  o == Orth(Orth(u, Append(S.V, v)), Append(S.V, v)) IN
  [V |-> Append(S.V, v), W |-> Append(S.W, w), NW |-> Append(S.NW, nw), next |-> o, gap |-> KNorm(o),
   lo |-> IF KNorm(o) < KRoom THEN S.lo ELSE Min2(S.lo, KNorm(o))]
(* the nested Krylov spaces of (M N, M g) as orthonormal V and conjugate W *)
Krylov(N, M, g) ==
  IF g = Zeros(Len(g)) THEN [KNil EXCEPT !.gap = 0]
  ELSE FoldLeft(LAMBDA S, k : IF S.gap < KRoom THEN S ELSE Extend(S, N, M, KUnit(S.next)),
                Extend(KNil, N, M, KUnit(KSc(MatVec(M, g)))), [k \in 1..(Len(g) - 1) |-> k])
KDim0(S) == Len(S.V)
(* dimension and directions are unambiguous in fixed point *)
Clear(S, n) == S.lo >= 2000 /\ (KDim0(S) = n \/ S.gap < 40)
KDim(S) == Len(S.V)
KLen(S, i) == KDot(S.W[i], S.NW[i])             \* energy of the direction
(* k-th iterate: the minimiser of z N z / 2 - g z over the k-th space *)
Iter(S, g, k) == FoldLeft(LAMBDA z, i : KAxpy(z, KD(KDot(KSc(g), S.W[i]), KLen(S, i)), S.W[i]), Zeros(Len(g)), [i \in 1..Min2(k, KDim(S)) |-> i])
Resid(N, g, z) == VSub(KSc(g), MatVec(N, z))
(* sum of the squared lengths of the energy-normalised directions: |D_k|_F^2 *)
DirSqr(S, k) == SumS([i \in 1..Min2(k, KDim(S)) |-> KD(KDot(S.W[i], S.W[i]), KLen(S, i))])
(* least squares with damping: complex matrices act as their real embedding *)
Embed(Ar, Ai) == IF Ai = <<>> THEN Ar ELSE
  LET m == Len(Ar)  n == Cols(Ar) IN
  Mat(2 * m, 2 * n, LAMBDA i, j : IF i <= m THEN (IF j <= n THEN Ar[i][j] ELSE -Ai[i][j - n])
                                  ELSE (IF j <= n THEN Ai[i - m][j] ELSE Ar[i - m][j - n]))
NormalMat(E, damp) == LET G == MatMul(Transp(E), E) IN Mat(Len(G), Len(G), LAMBDA i, j : G[i][j] + (IF i = j THEN damp * damp ELSE 0))
=============================================================================
