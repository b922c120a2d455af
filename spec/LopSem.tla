------------------------------- MODULE LopSem -------------------------------
(* Meaning of every built-in operator of cr.sparse.lop as an explicit matrix. *)
(* A descriptor d is a record with the constructor name d.k and parameters.   *)
(* Ent(d, i, j) = <<re, im>> is the matrix entry at scale SC (1-based, N-D     *)
(* spaces flattened in C order).                                               *)
EXTENDS Lin, Trig
SC == 5040
SCinvSqrt(k) == LET t == (SC * SC) \div k  r == ISqrt(t) IN IF t - r * r > r THEN r + 1 ELSE r
SCsqrt(k) == LET t == SC * SC * k  r == ISqrt(t) IN IF t - r * r > r THEN r + 1 ELSE r
At(s, i) == IF i >= 0 /\ i < Len(s) THEN s[i + 1] ELSE 0          \* 0-based, zero outside
RECURSIVE ProdS(_)
ProdS(s) == IF s = <<>> THEN 1 ELSE Head(s) * ProdS(Tail(s))
Size(sh) == ProdS(sh)
(* multi-index (0-based) of a 0-based flat index, C order *)
RECURSIVE Unflat(_, _)
Unflat(p, sh) == IF sh = <<>> THEN <<>>
   ELSE LET rest == Tail(sh)  z == ProdS(rest) IN <<p \div z>> \o Unflat(p % z, rest)
RECURSIVE UnflatF(_, _)
UnflatF(p, sh) == IF sh = <<>> THEN <<>> ELSE <<p % Head(sh)>> \o UnflatF(p \div Head(sh), Tail(sh))
RECURSIVE FlatF(_, _)
FlatF(ix, sh) == IF sh = <<>> THEN 0 ELSE Head(ix) + Head(sh) * FlatF(Tail(ix), Tail(sh))
(* number of rows (data space) and columns (model space) *)
Rows(d) ==
  CASE d.k = "identity" -> d.m
    [] d.k \in {"matrix", "real_matrix", "sparse_real_matrix"} -> Len(d.A)
    [] d.k = "zero" -> d.m
    [] d.k = "sum" -> 1
    [] d.k = "pad_zeros" -> d.n + d.before + d.after
    [] d.k = "symmetrize" -> 2 * d.n
    [] d.k = "restriction" -> Len(d.I)
    [] d.k = "dot" -> IF d.adj THEN Len(d.v) ELSE 1
    [] d.k = "fft" -> d.nfft
    [] d.k \in {"reshape", "arr2vec", "convolveND", "tv2D"} -> Size(d.shape)
    [] OTHER -> d.n
NCols(d) ==
  CASE d.k \in {"matrix", "real_matrix", "sparse_real_matrix"} -> Len(d.A[1])
    [] d.k = "dot" -> IF d.adj THEN 1 ELSE Len(d.v)
    [] d.k = "fft" -> d.n
    [] d.k \in {"reshape", "arr2vec", "convolveND", "tv2D"} -> Size(d.shape)
    [] d.k = "dirac_fourier_basis" -> 2 * d.n
    [] OTHER -> d.n
R(v) == <<SC * v, 0>>
Z == <<0, 0>>
B(c) == IF c THEN R(1) ELSE Z
DiffEnt(kind, n, i, j) ==        \* forward difference with a boundary mode, integer
  IF i < n THEN (IF j = i + 1 THEN 1 ELSE IF j = i THEN -1 ELSE 0)
  ELSE CASE kind = "regular" -> 0
         [] kind = "dirichlet" -> IF j = n THEN -1 ELSE 0
         [] kind = "circular" -> (IF j = 1 THEN 1 ELSE 0) + (IF j = n THEN -1 ELSE 0)
PopParity(a, b) ==               \* parity of the bitwise and of a and b (a, b < 64)
  LET bit(x, t) == (x \div t) % 2 IN
  (bit(a,1)*bit(b,1) + bit(a,2)*bit(b,2) + bit(a,4)*bit(b,4) + bit(a,8)*bit(b,8)
    + bit(a,16)*bit(b,16) + bit(a,32)*bit(b,32)) % 2
(* Walsh functions are in sequency order: the i-th has i - 1 sign changes *)
SignChanges(h, n) == Cardinality({j \in 1..(n - 1) : PopParity(h, j - 1) # PopParity(h, j)})
WalshRow(i, n) == CHOOSE h \in 0..(n - 1) : SignChanges(h, n) = i - 1
MulRt(c, n) == (c * SCinvSqrt(n)) \div SC    \* fixed point c / sqrt(n)
Ent(d, i, j) ==
  CASE d.k = "identity" -> B(i = j)
    [] d.k \in {"matrix", "real_matrix", "sparse_real_matrix"} -> <<SC * d.A[i][j], SC * d.Ai[i][j]>>
    [] d.k = "diagonal" -> IF i = j THEN <<SC * d.v[i], SC * d.vi[i]>> ELSE Z
    [] d.k = "scalar_mult" -> IF i = j THEN <<SC * d.a, SC * d.ai>> ELSE Z
    [] d.k = "zero" -> Z
    [] d.k = "flipud" -> B(j = d.n + 1 - i)
    [] d.k = "realpart" -> B(i = j)             \* on real vectors; not linear over the complex numbers
    [] d.k = "sum" -> R(1)
    [] d.k = "pad_zeros" -> B(i - d.before = j)
    [] d.k = "symmetrize" -> B(IF i <= d.n THEN j = d.n + 1 - i ELSE j = i - d.n)
    [] d.k = "restriction" -> B(j = d.I[i] + 1)
    [] d.k = "cumsum" -> B(j <= i)
    [] d.k = "heaviside" -> IF j <= i THEN <<SCinvSqrt(d.n - j + 1), 0>> ELSE Z
    [] d.k = "diff" -> IF i = j THEN R(1) ELSE IF j = i - 1 THEN R(-1) ELSE Z
    [] d.k = "inv_heaviside" -> LET w == SCsqrt(d.n - i + 1) IN
          IF i = j THEN <<w, 0>> ELSE IF j = i - 1 THEN <<-w, 0>> ELSE Z
    [] d.k = "running_average" -> LET p == i - j + ((d.len - 1) \div 2) IN
          IF p >= 0 /\ p < d.len THEN <<SC \div d.len, 0>> ELSE Z
    [] d.k = "fir_filter" -> LET p == i - j + ((Len(d.h) - 1) \div 2) IN
          <<SC * At(d.h, p), SC * At(d.hi, p)>>
    [] d.k = "convolve" -> LET p == i - j + d.offset IN <<SC * At(d.h, p), SC * At(d.hi, p)>>
    [] d.k = "circulant" -> R(At(d.h, ((i - j) + d.n) % d.n))
    [] d.k = "first_derivative" ->
          LET f(v) == <<(SC * v * d.dxd) \div (2 * d.dxn), 0>> IN
          (CASE d.kind = "forward" -> f(2 * DiffEnt("regular", d.n, i, j))
            [] d.kind = "backward" -> IF i = 1 THEN Z ELSE
                  IF j = i THEN f(2) ELSE IF j = i - 1 THEN f(-2) ELSE Z
            [] d.kind = "centered" -> IF i = 1 \/ i = d.n THEN Z ELSE
                  IF j = i + 1 THEN f(1) ELSE IF j = i - 1 THEN f(-1) ELSE Z)
    [] d.k = "second_derivative" ->
          LET g(v) == <<(SC * v * d.dxd * d.dxd) \div (d.dxn * d.dxn), 0>> IN
          IF i = 1 \/ i = d.n THEN Z
          ELSE IF Abs(i - j) = 1 THEN g(1) ELSE IF i = j THEN g(-2) ELSE Z
    [] d.k = "tv" -> R(DiffEnt(d.kind, d.n, i, j))
    [] d.k = "tv2D" -> LET r == d.shape[1]  c == d.shape[2]
                           ir == ((i - 1) \div c) + 1   ic == ((i - 1) % c) + 1
                           jr == ((j - 1) \div c) + 1   jc == ((j - 1) % c) + 1 IN
          << IF ir = jr THEN SC * DiffEnt(d.kind, c, ic, jc) ELSE 0,
             IF ic = jc THEN SC * DiffEnt(d.kind, r, ir, jr) ELSE 0 >>
    [] d.k = "dot" -> R(IF d.adj THEN d.v[i] ELSE d.v[j])
    [] d.k = "arr2vec" -> B(i = j)
    [] d.k = "reshape" -> IF d.order = "C" THEN B(i = j)
          ELSE B(FlatF(Unflat(i - 1, d.out), d.out) = FlatF(Unflat(j - 1, d.shape), d.shape))
    [] d.k = "fft" -> LET t == ((i - 1) * (j - 1)) % d.nfft IN <<CosF(t, d.nfft), -SinF(t, d.nfft)>>
    [] d.k = "convolveND" ->
          LET a == Unflat(i - 1, d.shape)   b == Unflat(j - 1, d.shape)
              D == Len(d.shape)
              (* filter extended to the data dimensions *)
              axOf(t) == {s \in 1..Len(d.axes) : d.axes[s] + 1 = t}
              same == \A t \in 1..D : axOf(t) = {} => a[t] = b[t]
              p == [s \in 1..Len(d.axes) |-> a[d.axes[s] + 1] - b[d.axes[s] + 1] + d.offs[s]]
              inside == \A s \in 1..Len(d.axes) : p[s] >= 0 /\ p[s] < d.hshape[s]
              RECURSIVE fl(_, _)
              fl(s, acc) == IF s > Len(d.axes) THEN acc ELSE fl(s + 1, acc * d.hshape[s] + p[s])
          IN IF same /\ inside THEN <<SC * At(d.h, fl(1, 0)), SC * At(d.hi, fl(1, 0))>> ELSE Z
    [] d.k = "fourier_basis" -> LET t == ((i - 1) * (j - 1)) % d.n IN
          <<MulRt(CosF(t, d.n), d.n), MulRt(SinF(t, d.n), d.n)>>
    [] d.k = "dirac_fourier_basis" -> IF j <= d.n THEN B(i = j) ELSE
          LET t == ((i - 1) * (j - 1 - d.n)) % d.n IN
          <<MulRt(CosF(t, d.n), d.n), MulRt(SinF(t, d.n), d.n)>>
    [] d.k = "cosine_basis" -> IF j = 1 THEN <<SCinvSqrt(d.n), 0>> ELSE
          LET c == CosF(((2 * i - 1) * (j - 1)) % (4 * d.n), 4 * d.n) IN
          <<(c * SCsqrt(2)) \div SC, 0>>   \* scaled below by 1/sqrt(n)
    [] d.k = "walsh_hadamard_basis" ->
          <<(IF PopParity(WalshRow(i, d.n), j - 1) = 1 THEN -1 ELSE 1) * SCinvSqrt(d.n), 0>>
    [] d.k = "hadamard_natural" ->
          <<(IF PopParity(i - 1, j - 1) = 1 THEN -1 ELSE 1) * SCinvSqrt(d.n), 0>>
(* the cosine basis needs a further 1/sqrt(n) for its non-constant columns *)
Entry(d, i, j) ==
  LET e == Ent(d, i, j) IN
  IF d.k = "cosine_basis" /\ j > 1 THEN <<MulRt(e[1], d.n), 0>> ELSE e
RowsRe(d) == TLCEval([i \in 1..Rows(d) |-> [j \in 1..NCols(d) |-> Entry(d, i, j)[1]]])
RowsIm(d) == TLCEval([i \in 1..Rows(d) |-> [j \in 1..NCols(d) |-> Entry(d, i, j)[2]]])
=============================================================================
