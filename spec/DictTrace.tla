----------------------------- MODULE DictTrace ------------------------------
EXTENDS Dict, Wavelet, Trig, TraceBase
Q == 10000
NearC(M, re, im, s, tol) == MNear(M.re, Mat(Len(re), Cols(re), LAMBDA i, j : re[i][j] * s), tol) /\ MNear(M.im, Mat(Len(im), Cols(im), LAMBDA i, j : im[i][j] * s), tol)
PropsVerdict(ev) ==
  LET A == ev.d.A  n == NAt(A)  G == AbsGram(A, A) IN
   C("gram", NearC(ev.gram, GramRe(A, A), GramIm(A, A), DS, 2)) \cup C("frame", NearC(ev.frame, FrameRe(A), FrameIm(A), DS, 2))
   \cup C("coherence", Near(ev.coh, CohOf(G), 4) /\ Near(ev.cohi.v, CohOf(G), 4))
   \cup C("coherence-index", LET i == ev.cohi.i + 1  j == ev.cohi.j + 1 IN i \in 1..n /\ j \in 1..n /\ i # j /\ Near(G[i][j], CohOf(G), 4))
   \cup C("babel", Len(ev.babel) = n - 1 /\ \A p \in 1..(n - 1) : Near(ev.babel[p], BabelDef(G, p), 4 * p))
MutualVerdict(ev) ==
  LET G == AbsGram(ev.d.A, ev.d.B)  m == Max({G[i][j] : i \in 1..Len(G), j \in 1..Cols(G)}) IN
   C("mutual", Near(ev.v, m, 4) /\ Near(ev.vi.v, m, 4))
   \cup C("mutual-index", LET i == ev.vi.i + 1  j == ev.vi.j + 1 IN i \in 1..Len(G) /\ j \in 1..Cols(G) /\ Near(G[i][j], m, 4))
MatchVerdict(ev) == \* unit atoms scaled by 5: similarity over 25, at scale DS * 25
  LET G == AbsGram(ev.d.A, ev.d.B)  n == NAt(ev.d.A)
      hit(i) == \E j \in 1..Cols(G) : 100 * (25 * DS - G[i][j]) + 50 < ev.d.th * 25 * DS
      edge(i) == ~hit(i) /\ \E j \in 1..Cols(G) : 100 * (25 * DS - G[i][j]) - 5000 < ev.d.th * 25 * DS
      c == Cardinality({i \in 1..n : hit(i)})  e == Cardinality({i \in 1..n : edge(i)}) IN
   C("ratio", \E k \in c..(c + e) : Near(ev.v * n, k * Q, n))
CosEntry(n, k, i) == \* i-th sample of the k-th cosine (from 0), scale TrigScale, not normalised
   CosF((2 * i + 1) * k, 4 * n)
DivR(a, b) == (2 * a + b) \div (2 * b)
RootQ(n) == ISqrt(n * 1000000)      \* 1000 sqrt(n)
CosRow(n, k, row) == \A i \in 1..n : \* row_i = c cos, c = sqrt(1/n) or sqrt(2/n)
   LET e == IF k = 0 THEN RootQ(n) ELSE RootQ(2 * n) IN \* sqrt(2/n) = sqrt(2n)/n
   Near(row[i] * n, DivR(DivR(CosEntry(n, k, i - 1) * e, 1000) * Q, TrigScale), 30 + 4 * n)
Unit(n) == Mat(n, n, LAMBDA i, j : IF i = j THEN Q ELSE 0)
HadN(n, M, s) == MNear([i \in 1..n |-> [j \in 1..n |-> M[i][j] * RootQ(n)]], [i \in 1..n |-> [j \in 1..n |-> Had(n)[i][j] * s * 1000]], 3000 * n)
Part(M, a, b) == [i \in 1..Len(M) |-> SubSeq(M[i], a, b)]
HadVerdict(ev) ==
  LET n == ev.d.n  H == Had(n) IN
   C("hadamard", ev.H = H) \cup C("hadamard-basis", HadN(n, ev.B, Q))
   \cup C("dirac-hadamard", Cols(ev.D) = 2 * n /\ Part(ev.D, 1, n) = Unit(n) /\ Part(ev.D, n + 1, 2 * n) = ev.B)
   \cup C("dirac-hadamard-cosine", Cols(ev.T) = 3 * n /\ Part(ev.T, 1, n) = Unit(n) /\ Part(ev.T, n + 1, 2 * n) = ev.B /\ \A k \in 1..n : CosRow(n, k - 1, Part(ev.T, 2 * n + 1, 3 * n)[k]))
CosVerdict(ev) ==
  LET n == ev.d.n IN C("cosine", Len(ev.B) = n /\ \A k \in 1..n : CosRow(n, k - 1, ev.B[k]))
   \cup C("dirac-cosine", Cols(ev.D) = 2 * n /\ Part(ev.D, 1, n) = Unit(n) /\ Part(ev.D, n + 1, 2 * n) = ev.B)
FouVerdict(ev) ==
  LET n == ev.d.n IN C("fourier", \A i, j \in 1..n :
      /\ Near(ev.B.re[i][j] * RootQ(n), DivR(CosF((i - 1) * (j - 1), n) * 1000 * 125, 63), 2500 * n)
      /\ Near(ev.B.im[i][j] * RootQ(n), DivR(SinF((i - 1) * (j - 1), n) * 1000 * 125, 63), 2500 * n))
WavVerdict(ev) ==
  LET d == ev.d  n == d.n  lv == ev.level  tol == 12 + 6 * lv IN
   C("wavelet", \A i \in 1..n : UNION {C("x", VNear([j \in 1..n |-> ev.B[i][j]], c, tol)) : c \in {DwtCol(n, d.name, lv, i)}} = {})
(* ---- random dictionaries ---- *)
FMulQ(a, b) == FMul(a, b, Q)
SqN(M, j) == SumS([i \in 1..Len(M) |-> FMulQ(M[i][j], M[i][j])])
OrthoRows(M) == \A a, b \in 1..Len(M) : a <= b => Near(SumS([j \in 1..Cols(M) |-> FMulQ(M[a][j], M[b][j])]), IF a = b THEN Q ELSE 0, 20)
Entry(v, root) == FMul(v, root, 1000)         \* v * sqrt(k) at scale Q
RandVerdict(ev) ==
  LET d == ev.d  M == ev.M  m == d.m  n == d.n  k == d.k IN
   IF ~MFinite(M) THEN {"not-finite"} ELSE
   C("shape", Len(M) = m /\ \A i \in 1..m : Len(M[i]) = n)
   \cup C("pure", ev.M2 = M) \cup C("key", (d.f # "binary" \/ k < m) => ev.M3 # M)
   \cup (CASE d.f = "gauss" -> C("unit-atoms", d.norm = 1 => \A j \in 1..n : Near(SqN(M, j), Q, 20))
              \cup C("scale", d.norm = 0 => LET t == SumS([j \in 1..n |-> SqN(M, j)]) IN t > n * 4000 /\ t < n * 20000)
              \cup C("distinct", \A i, j \in 1..n : i < j => \E r \in 1..m : M[r][i] # M[r][j])
         [] d.f = "rade" -> C("entries", \A i \in 1..m, j \in 1..n : IF d.norm = 1 THEN Near(Abs(Entry(M[i][j], RootQ(m))), Q, 12) ELSE Abs(M[i][j]) = Q)
              \cup C("both-signs", \E i \in 1..m, j \in 1..n : M[i][j] > 0) \cup C("both-signs", \E i \in 1..m, j \in 1..n : M[i][j] < 0)
         [] d.f = "binary" -> C("entries", \A i \in 1..m, j \in 1..n : M[i][j] = 0 \/ (IF d.norm = 1 THEN Near(Entry(M[i][j], RootQ(k)), Q, 12) ELSE M[i][j] = Q))
              \cup C("per-column", \A j \in 1..n : Cardinality({i \in 1..m : M[i][j] # 0}) = k)
              \cup C("sparse-form", ev.sp = M) \cup C("columns-differ", k < m => \E i \in 1..m, j \in 1..n : M[i][j] # M[i][1])
         [] d.f = "onb" -> C("orthonormal", OrthoRows(M) /\ OrthoRows(Transp(M)))
         [] d.f = "rows" -> C("orthonormal-rows", m <= n => OrthoRows(M)))
GrassVerdict(ev) ==
  LET d == ev.d IN
   C("shape", \A t \in 1..Len(ev.F) : Len(ev.F[t]) = d.m /\ Cols(ev.F[t]) = d.n)
   \cup C("unit-atoms", \A t \in 1..Len(ev.F) : \A j \in 1..d.n : Near(SqN(ev.F[t], j), Q, 40))
   \cup C("keeps-gram", ev.same = 1)
   \cup C("less-coherent", ev.coh[2] <= ev.coh[1] + 5) 
   \cup C("welch", Near(FMulQ(ev.mu, ev.mu) * d.m * (d.n - 1), (d.n - d.m) * Q, 12 * d.m * d.n) /\ (d.n > d.m => \A t \in 1..2 : ev.coh[t] >= ev.mu - 5))
DictVerdict(p, ev) ==
  IF ev.exc # "" THEN {"exception"}
  ELSE CASE ev.d.kind = "props" -> PropsVerdict(ev) [] ev.d.kind = "mutual" -> MutualVerdict(ev) [] ev.d.kind = "match" -> MatchVerdict(ev)
         [] ev.d.kind = "had" -> HadVerdict(ev) [] ev.d.kind = "cos" -> CosVerdict(ev) [] ev.d.kind = "fou" -> FouVerdict(ev) [] ev.d.kind = "wav" -> WavVerdict(ev)
         [] ev.d.kind = "rand" -> RandVerdict(ev) [] ev.d.kind = "grass" -> GrassVerdict(ev)
=============================================================================
