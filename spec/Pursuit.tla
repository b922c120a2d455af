------------------------------ MODULE Pursuit ------------------------------
(* Greedy recovery y = Phi x.  Fixed point numbers of scale QP.  A problem is  *)
(*   [m, N, g, col, y]: col[c] is a column (length m) of the real matrix with  *)
(* g*N columns; complex problems are embedded with g = 2: atom j owns columns  *)
(* j (real part) and j + N (imaginary part).                                   *)
EXTENDS Lin
QP == 16380                               \* = 126 * 130
QM(a, b) == FMul(a, b, QP)
QD(a, b) == FDiv2(a, b, 126, 130)
QDot(u, v) == FDot(u, v, QP)
Group(P, j) == IF P.g = 1 THEN {j} ELSE {j, j + P.N}
ColsOf(P, J) == [t \in 1..(P.g * Len(J)) |-> IF t <= Len(J) THEN J[t] ELSE J[t - Len(J)] + P.N]
Corr(P, r) == TLCEval([c \in 1..(P.g * P.N) |-> QDot(P.col[c], r)])
Hypot(a, b) == LET f == 1 + Max2(Abs(a), Abs(b)) \div 30000
                   p == Abs(a) \div f  q == Abs(b) \div f
               IN f * ISqrt(p * p + q * q)
Mag(P, h, j) == IF P.g = 1 THEN Abs(h[j]) ELSE Hypot(h[j], h[j + P.N])
Mags(P, h) == TLCEval([j \in 1..P.N |-> Mag(P, h, j)])
Apply(P, x) == TLCEval([i \in 1..P.m |-> SumS([c \in 1..(P.g * P.N) |-> IF x[c] = 0 THEN 0 ELSE QM(P.col[c][i], x[c])])])
Resid(P, x) == VSub(P.y, Apply(P, x))
Norm2(v) == SumS([i \in 1..Len(v) |-> QM(v[i], v[i])])
(* least squares over a sequence of columns: normal equations, elimination, one refinement *)
Gram(A) == TLCEval([a \in 1..Len(A) |-> [b \in 1..Len(A) |-> QDot(A[a], A[b])]])
ElimStep(M, k) == TLCEval([i \in 1..Len(M) |->
   IF i = k THEN M[k]
   ELSE LET f == QD(M[i][k], M[k][k]) IN [c \in 1..Len(M[1]) |-> IF c < k THEN M[i][c] ELSE M[i][c] - QM(f, M[k][c])]])
Elim(M) == FoldLeft(LAMBDA acc, k : ElimStep(acc, k), M, [k \in 1..Len(M) |-> k])
SolveSys(G, b) == LET M == Elim(TLCEval([i \in 1..Len(G) |-> Append(G[i], b[i])]))
                  IN TLCEval([i \in 1..Len(G) |-> QD(M[i][Len(G) + 1], M[i][i])])
PivotsOK(G) == FoldLeft(LAMBDA acc, k : IF acc.ok /\ acc.M[k][k] >= QP \div 16
                   THEN [M |-> ElimStep(acc.M, k), ok |-> TRUE] ELSE [M |-> acc.M, ok |-> FALSE],
                 [M |-> G, ok |-> TRUE], [k \in 1..Len(G) |-> k]).ok
WellPosed(P, J) == LET cs == ColsOf(P, J) IN PivotsOK(Gram([t \in 1..Len(cs) |-> P.col[cs[t]]]))
Expand(P, cs, b) == TLCEval([c \in 1..(P.g * P.N) |-> IF \E t \in 1..Len(cs) : cs[t] = c
                       THEN b[CHOOSE t \in 1..Len(cs) : cs[t] = c] ELSE 0])
LSQ(P, J) == CHOOSE z \in
   UNION {UNION {UNION {
     {Expand(P, cs, VAdd(b0, SolveSys(G, TLCEval([t \in 1..Len(A) |-> QDot(A[t], Resid(P, Expand(P, cs, b0)))]))))
        : b0 \in {SolveSys(G, TLCEval([t \in 1..Len(A) |-> QDot(A[t], P.y)]))}}
       : G \in {Gram(A)}} : A \in {TLCEval([t \in 1..Len(cs) |-> P.col[cs[t]]])}} : cs \in {ColsOf(P, J)}} : TRUE
(* K positions of largest value, in decreasing order (ties to the later position, as argsort reversed) *)
RECURSIVE TopSeq(_, _, _)
TopSeq(v, K, S) == IF K = 0 \/ S = {} THEN <<>>
   ELSE LET b == CHOOSE i \in S : \A j \in S : v[j] < v[i] \/ (v[j] = v[i] /\ j <= i)
        IN <<b>> \o TopSeq(v, K - 1, S \ {b})
TopK(v, K) == TopSeq(v, K, 1..Len(v))
(* I is a legitimate choice of the K largest of v up to tol *)
IsTop(v, S, tol) == \A i \in S : \A j \in (1..Len(v)) \ S : v[i] >= v[j] - tol
Gap(v, K) == LET o == TopSeq(v, K + 1, 1..Len(v)) IN IF Len(v) <= K THEN QP ELSE v[o[K]] - v[o[K + 1]]
SetOf(s) == {s[i] : i \in 1..Len(s)}
OnSupp(P, x, S) == \A c \in 1..(P.g * P.N) : (\E j \in S : c \in Group(P, j)) \/ x[c] = 0
(* ---------------- one iteration of each solver: [x, I, r] -> [x, I, r] ---------------- *)
St(P, x, I) == [x |-> x, I |-> I, r |-> Resid(P, x)]
Start(P) == [x |-> Zeros(P.g * P.N), I |-> <<>>, r |-> P.y]
StepMP(P, s) == UNION {{ St(P, [s.x EXCEPT ![i] = @ + h[i]], Append(s.I, i)) : i \in {TopK(Mags(P, h), 1)[1]}} : h \in {Corr(P, s.r)}}
StepOMP(P, s) == UNION {{ St(P, LSQ(P, Append(s.I, i)), Append(s.I, i)) : i \in {TopK(Mags(P, h), 1)[1]}} : h \in {Corr(P, s.r)}}
Masked(P, h, I) == TLCEval([j \in 1..P.N |-> IF j \in SetOf(I) THEN -1 ELSE Mag(P, h, j)])
Merge(P, s, h, extra, first) == IF s.I = <<>> THEN TopK(Mags(P, h), first) ELSE s.I \o TopK(Masked(P, h, s.I), extra)
PruneMag(P, x, J) == [t \in 1..Len(J) |-> Mag(P, x, J[t])]
Prune(P, x, J, K) == LET o == TopK(PruneMag(P, x, J), K) IN [t \in 1..Len(o) |-> J[o[t]]]
StepSP(P, s, K) == UNION {UNION {
     IF s.I = <<>> THEN {St(P, LSQ(P, J), J)}
     ELSE UNION {{St(P, LSQ(P, I), I) : I \in {Prune(P, b, J, K)}} : b \in {LSQ(P, J)}}
       : J \in {Merge(P, s, h, K, K)}} : h \in {Corr(P, s.r)}}
StepCoSaMP(P, s, K) == UNION {UNION {UNION {
     {St(P, TLCEval([c \in 1..(P.g * P.N) |-> IF \E t \in 1..K : c \in Group(P, I[t]) THEN b[c] ELSE 0]), I) : I \in {Prune(P, b, J, K)}}
       : b \in {LSQ(P, J)}} : J \in {Merge(P, s, h, 2 * K, 3 * K)}} : h \in {Corr(P, s.r)}}
(* exact line search step along h restricted to I (normalised variants) *)
LineVec(P, h, I) == TLCEval([c \in 1..P.N |-> IF c \in SetOf(I) THEN h[c] ELSE 0])
LineSupp(s, K) == IF s.I = <<>> THEN [t \in 1..K |-> t] ELSE s.I
LineDefined(P, s, K) == Norm2(Apply(P, LineVec(P, Corr(P, s.r), LineSupp(s, K)))) > QP \div 20
LineStep(P, h, I) == LET v == LineVec(P, h, I)  d == Norm2(Apply(P, v)) IN IF d = 0 THEN QP ELSE QD(Norm2(v), d)
StepGrad(P, s, K, mu, nrm, refit) ==
   UNION {UNION {UNION {UNION {
     {IF refit /\ s.I # <<>> THEN St(P, LSQ(P, I), I)
      ELSE St(P, TLCEval([c \in 1..P.N |-> IF c \in SetOf(I) THEN z[c] ELSE 0]), I) : I \in {TopK(Mags(P, z), K)}}
      : z \in {TLCEval([c \in 1..P.N |-> s.x[c] + QM(st, h[c])])}}
      : st \in {IF nrm THEN LineStep(P, h, LineSupp(s, K)) ELSE mu}}
      : h \in {Corr(P, s.r)}} : dummy \in {0}}
(* ---------------- step relations, with tolerance (recorded states) ---------------- *)
LsqTol == 24
(* x restricted to I minimises the residual: residual orthogonal to the selected columns *)
IsLSQ(P, x, I) == /\ OnSupp(P, x, SetOf(I))
                  /\ LET r == Resid(P, x) IN \A j \in SetOf(I) : \A c \in Group(P, j) : Abs(QDot(P.col[c], r)) <= LsqTol
RelMP(P, s, t) == \E h \in {Corr(P, s.r)} : \E i \in 1..P.N :
    /\ \A j \in 1..P.N : Abs(h[i]) >= Abs(h[j]) - 12
    /\ VNear(t.x, [s.x EXCEPT ![i] = @ + h[i]], 12)
RelOMP(P, s, t) == \E v \in {Mags(P, Corr(P, s.r))} :
    /\ Len(t.I) = Len(s.I) + 1 /\ SubSeq(t.I, 1, Len(s.I)) = s.I
    /\ \A j \in 1..P.N : v[t.I[Len(t.I)]] >= v[j] - (12 + MaxAbs(v) \div 200)
    /\ IsLSQ(P, t.x, t.I)
(* candidate merged sets: every set of the `extra` largest allowed within tol *)
TopSets(v, K, S, tol) ==
   LET o == TopSeq(v, K, S)
       kth == v[o[Len(o)]]
       sure == {j \in S : v[j] > kth + tol}
       maybe == {j \in S : Abs(v[j] - kth) <= tol}
   IN {sure \cup T : T \in {U \in SUBSET maybe : Cardinality(U) = Min2(K, Cardinality(S)) - Cardinality(sure)}}
Merges(P, s, extra, first) == UNION {
    LET tol == 12 + MaxAbs(v) \div 200 IN
    IF s.I = <<>> THEN TopSets(v, first, 1..P.N, tol)
    ELSE {SetOf(s.I) \cup U : U \in TopSets(v, extra, (1..P.N) \ SetOf(s.I), tol)} : v \in {Mags(P, Corr(P, s.r))}}
PruneTol(v) == 80 + MaxAbs(v) \div 50
RelSP(P, s, t, K) == \E J \in Merges(P, s, K, K) :
    /\ SetOf(t.I) \subseteq J /\ Cardinality(SetOf(t.I)) = K
    /\ (s.I # <<>> /\ WellPosed(P, SetToSeq(J))) =>     \* near-dependent merged atoms: the pruning is not determined
         \E b \in {LSQ(P, SetToSeq(J))} : \E v \in {Mags(P, b)} : IsTop(v, SetOf(t.I), PruneTol(v))
    /\ IsLSQ(P, t.x, t.I)
RelCoSaMP(P, s, t, K) == \E J \in Merges(P, s, 2 * K, 3 * K) :
    /\ SetOf(t.I) \subseteq J /\ Cardinality(SetOf(t.I)) = K
    /\ OnSupp(P, t.x, SetOf(t.I))
    /\ WellPosed(P, SetToSeq(J)) => \E b \in {LSQ(P, SetToSeq(J))} : \E v \in {Mags(P, b)} :
         /\ IsTop(v, SetOf(t.I), PruneTol(v))
         /\ \A j \in SetOf(t.I) : \A c \in Group(P, j) : Near(t.x[c], b[c], PruneTol(v))
RelGrad(P, s, t, K, mu, nrm, refit) ==
   \E h \in {Corr(P, s.r)} : \E st \in {IF nrm THEN LineStep(P, h, LineSupp(s, K)) ELSE mu} :
   \E z \in {TLCEval([c \in 1..P.N |-> s.x[c] + QM(st, h[c])])} :
   \E tol \in {40 + MaxAbs(z) \div 100} :
   (* the line search is undetermined when the correlation vanishes on the support, as after a refit *)
   \E def \in {~nrm \/ LineDefined(P, s, K)} :
     /\ Cardinality(SetOf(t.I)) = K
     /\ def => IsTop(Mags(P, z), SetOf(t.I), tol)
     /\ IF refit /\ s.I # <<>> THEN IsLSQ(P, t.x, t.I)
        ELSE /\ OnSupp(P, t.x, SetOf(t.I))
             /\ def => \A j \in SetOf(t.I) : Near(t.x[j], z[j], tol)
(* a solver is [name, K, mu, nrm] *)
Step(sv, P, s) == CASE sv.name = "mp" -> StepMP(P, s)
   [] sv.name = "omp" -> StepOMP(P, s)
   [] sv.name = "sp" -> StepSP(P, s, sv.K)
   [] sv.name = "cosamp" -> StepCoSaMP(P, s, sv.K)
   [] sv.name = "iht" -> StepGrad(P, s, sv.K, sv.mu, sv.nrm, FALSE)
   [] sv.name = "htp" -> StepGrad(P, s, sv.K, sv.mu, sv.nrm, TRUE)
Rel(sv, P, s, t) == CASE sv.name = "mp" -> RelMP(P, s, t)
   [] sv.name = "omp" -> RelOMP(P, s, t)
   [] sv.name = "sp" -> RelSP(P, s, t, sv.K)
   [] sv.name = "cosamp" -> RelCoSaMP(P, s, t, sv.K)
   [] sv.name = "iht" -> RelGrad(P, s, t, sv.K, sv.mu, sv.nrm, FALSE)
   [] sv.name = "htp" -> RelGrad(P, s, t, sv.K, sv.mu, sv.nrm, TRUE)
(* ---------------- stopping: the set of permitted answers to "does it go on after state t?" ------------- *)
MinIters(K) == Min2(3 * K, 20)
SupportRule(sv) == (sv.name = "sp" /\ sv.form = "op") \/ (sv.name = "cosamp" /\ sv.form = "op") \/ sv.name = "htp"
(* lim2: squared residual limit (rtol * |y|)^2 ; k: iterations done; s, t: last two states *)
MustStop(sv, P, s, t, k, lim2) == \/ Norm2(t.r) < lim2 - (6 + lim2 \div 100)
   \/ (SupportRule(sv) /\ k >= MinIters(sv.K) /\ s.I # <<>> /\ s.I = t.I)
MustGo(sv, P, s, t, k, lim2) == /\ Norm2(t.r) > lim2 + (6 + lim2 \div 100)
   /\ \/ ~SupportRule(sv) \/ k < MinIters(sv.K) \/ (s.I # <<>> /\ SetOf(s.I) # SetOf(t.I)) \/ sv.name = "none"
=============================================================================
