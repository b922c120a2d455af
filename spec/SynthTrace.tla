----------------------------- MODULE SynthTrace -----------------------------
EXTENDS Synth, TraceBase
Spread(S) == \E x, y \in S : x # y
SigVerdict(ev) ==
  LET d == ev.d  X == ev.X  D == d.D  K == d.K  S == d.S  W == ToSet0(ev.om) IN
   IF ~(MFinite(X) /\ Len(X) = D /\ \A i \in 1..D : Len(X[i]) = S) THEN {"shape"} ELSE
   C("shape", ev.ndim = IF S = 1 THEN 1 ELSE 2)
   \cup C("support", Support(D, K, ev.om)) \cup C("sorted", Sorted(ev.om))
   \cup (IF \E i \in 1..Len(ev.om) : ev.om[i] \notin 0..(D - 1) THEN {} ELSE
         C("zero-outside", Zero(X, D, S, W)) \cup C("nonzero-inside", Full(X, S, W))
         \cup C("spikes", d.f = "spikes" => \A i \in W, c \in 1..S : Abs(X[i + 1][c]) = Q)
         \cup C("range", d.f = "biuniform" => \A i \in W, c \in 1..S : Abs(X[i + 1][c]) >= d.a * Q - 1 /\ Abs(X[i + 1][c]) <= d.b * Q + 1)
         \cup C("varied", (d.f = "normal" \/ (d.f = "biuniform" /\ d.a < d.b)) => Cardinality({Abs(X[i + 1][c]) : i \in W, c \in 1..S}) > (K * S * 2) \div 3))
   \cup C("pure", ev.X2 = X) \cup C("key", K * S > 6 => ev.X3 # X)
BlkVerdict(ev) ==
  LET d == ev.d  X == ev.X  D == d.D  K == d.K  B == d.B  S == d.S  bs == ev.blocks  P == Cover(ToSet0(bs), B) IN
   IF ~(MFinite(X) /\ Len(X) = D /\ \A i \in 1..D : Len(X[i]) = S) THEN {"shape"} ELSE
   IF ~Support(D \div B, K, bs) THEN {"blocks"} ELSE
   C("shape", ev.ndim = IF S = 1 THEN 1 ELSE 2)
   \cup C("blocks", Sorted(bs)) \cup C("indices", Len(ev.ix) = K * B /\ ToSet0(ev.ix) = P /\ Sorted(ev.ix))
   \cup C("zero-outside", Zero(X, D, S, P)) \cup C("nonzero-inside", Full(X, S, P))
   \cup C("normalized", d.norm = 1 => \A b \in ToSet0(bs), c \in 1..S : Near(SumS([t \in 1..B |-> FQ(X[b * B + t][c], X[b * B + t][c])]), Q, 20))
   \cup C("scale", (d.norm = 0 /\ K * B * S > 12) => LET e == SumS([c \in 1..S |-> SumS([i \in 1..D |-> FQ(X[i][c], X[i][c])])]) IN ~Near(e, K * S * Q, 20))
   \cup C("fully-correlated", d.cor \in {100, -100} => \A b \in ToSet0(bs), c \in 1..S, t \in 1..(B - 1) : Near(X[b * B + t + 1][c] * 100, d.cor * X[b * B + t][c], 200))
   \cup C("varied", (d.cor \in {0, 50} /\ B > 1) => \E b \in ToSet0(bs), c \in 1..S, t \in 1..(B - 1) : ~Near(Abs(X[b * B + t + 1][c]), Abs(X[b * B + t][c]), 2))
   \cup C("columns-differ", (d.norm = 0 \/ (B > 1 /\ d.cor \in {0, 50})) => \A c, e \in 1..S : c < e => \E i \in 1..D : X[i][c] # X[i][e])
   \cup C("pure", ev.X2 = X) \cup C("key", (d.norm = 0 \/ (B > 1 /\ d.cor \in {0, 50})) => ev.X3 # X)
IdxVerdict(ev) ==
  LET d == ev.d  I == ev.I IN
   C("shape", IF d.axis = 0 THEN Len(I) = d.S /\ Cols(I) = d.K ELSE Len(I) = d.K /\ Cols(I) = d.S)
   \cup C("samples", \A r \in 1..d.S : Support(d.N, d.K, IF d.axis = 0 THEN I[r] ELSE [i \in 1..Len(I) |-> I[i][r]]))
   \cup C("independent", (d.S = 7 /\ d.N > d.K /\ d.N < 12) => Spread({IF d.axis = 0 THEN I[r] ELSE [i \in 1..Len(I) |-> I[i][r]] : r \in 1..d.S}))
   \cup C("pure", ev.I2 = I) \cup C("key", d.K * d.S > 6 => ev.I3 # I)
OrthVerdict(ev) ==
  LET d == ev.d  n == Len(d.x.re)  m == Max({Abs(d.x.re[i]) + Abs(d.x.im[i]) : i \in 1..n}) IN
   C("shape", Len(ev.P.re) = d.S /\ Cols(ev.P.re) = n)
   \cup C("orthogonal", \A r \in 1..Len(ev.P.re) : /\ Near(SumS([i \in 1..n |-> d.x.re[i] * ev.P.re[r][i] + d.x.im[i] * ev.P.im[r][i]]), 0, 3 * n * m)
                                                   /\ Near(SumS([i \in 1..n |-> d.x.re[i] * ev.P.im[r][i] - d.x.im[i] * ev.P.re[r][i]]), 0, 3 * n * m))
   \cup C("not-zero", n > 1 => \A r \in 1..Len(ev.P.re) : \E i \in 1..n : ev.P.re[r][i] # 0 \/ ev.P.im[r][i] # 0)
   \cup C("varied", \A r, s \in 1..Len(ev.P.re) : r < s => ev.P.re[r] # ev.P.re[s])
Ortho(A) == MNear(Gram2(A, A), IdQ(Cols(A)), 20)
SubVerdict(ev) ==
  LET d == ev.d  Bs == ev.B  X == ev.X  N == d.N IN
   C("count", Len(Bs) = d.K) \cup C("shape", \A k \in 1..Len(Bs) : Len(Bs[k]) = N /\ Cols(Bs[k]) = d.D)
   \cup C("orthonormal", \A k \in 1..Len(Bs) : Ortho(Bs[k]))
   \cup C("bases-differ", \A k, m \in 1..Len(Bs) : k < m => Bs[k] # Bs[m])
   \cup (IF ~(Len(X) = N /\ Cols(X) = d.K * d.n /\ Len(Bs) = d.K) THEN {"points-shape"} ELSE
        C("unit", \A j \in 1..Cols(X) : Near(SumS([i \in 1..N |-> FQ(X[i][j], X[i][j])]), Q, 20))
        \* lying on the labelled subspace: the coefficients in its basis carry the whole norm
        \cup C("on-subspace", \A j \in 1..Cols(X) : LET A == Bs[1 + ((j - 1) \div d.n)]  c == [t \in 1..d.D |-> SumS([i \in 1..N |-> FQ(A[i][t], X[i][j])])] IN
                 Near(SumS([t \in 1..d.D |-> FQ(c[t], c[t])]), Q, 30))
        \cup C("points-differ", d.D > 1 => \A i, j \in 1..Cols(X) : i < j => \E r \in 1..N : X[r][i] # X[r][j]))
   \cup C("pure", ev.same = 1) \cup C("key", ev.fresh = 1) \cup C("jit", ev.jit = 1)
AngVerdict(ev) ==
  LET d == ev.d  Bs == ev.B  c == CosDeg(d.t) IN
   C("count", Len(Bs) = d.m) \cup C("shape", \A k \in 1..Len(Bs) : Len(Bs[k]) = d.N /\ Cols(Bs[k]) = d.D)
   \cup (IF \E k \in 1..Len(Bs) : ~MFinite(Bs[k]) THEN {"not-finite"} ELSE
         C("orthonormal", \A k \in 1..Len(Bs) : Ortho(Bs[k]))
         \cup C("angle", \A k, m \in 1..Len(Bs) : k < m => CrossOK(Gram2(Bs[k], Bs[m]), c, 25)))
   \cup C("pure", ev.same = 1) \cup C("key", ev.fresh = 1) \cup C("jit", ev.jit = 1)
StatVerdict(ev) == \* moments over thousands of draws, scale 1000; the bounds are at least six standard deviations wide
  LET f == ev.d.f IN
   CASE f = "normal" -> C("mean", Near(ev.mean, 0, 150)) \cup C("variance", Near(ev.var, 1000, 200))
     [] f = "biuniform" -> C("mean-magnitude", Near(ev.mag, 3000, 150)) \cup C("spread", ev.lo < 2100 /\ ev.hi > 3900) \cup C("signs", Near(ev.pos, 500, 80))
     [] f = "spikes" -> C("signs", Near(ev.pos, 500, 80))
     [] f = "blocks" -> C("mean", Near(ev.mean, 0, 150)) \cup C("variance", \A i \in 1..Len(ev.vars) : Near(ev.vars[i], 1000, 200)) \cup C("correlation", \A i \in 1..Len(ev.cors) : Near(ev.cors[i], ev.want, 120))
     [] OTHER -> C("every-place", ToSet0(ev.seen) = 0..(ev.n - 1))
SynthVerdict(p, ev) ==
  IF ev.d.kind = "blkbad" THEN C("rejects-ragged-blocks", ev.exc # "") ELSE
  IF ev.exc # "" THEN {"exception"}
  ELSE CASE ev.d.kind = "sig" -> SigVerdict(ev) [] ev.d.kind = "blk" -> BlkVerdict(ev) [] ev.d.kind = "idx" -> IdxVerdict(ev) [] ev.d.kind = "orth" -> OrthVerdict(ev)
         [] ev.d.kind = "sub" -> SubVerdict(ev) [] ev.d.kind = "ang" -> AngVerdict(ev) [] ev.d.kind = "stat" -> StatVerdict(ev)
=============================================================================
