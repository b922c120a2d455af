------------------------------- MODULE LopGen -------------------------------
(* Bounded universe of operator descriptors, and the laws that the documented *)
(* matrices must satisfy.  One state per descriptor; TLC visits all of them   *)
(* and prints each as a case to be replayed against the implementation.       *)
EXTENDS LopSem, Json
CONSTANTS NMax, Emit, BigLevel
Hs(n, s) == [i \in 1..n |-> (((i * 5 + s * 3 + i * i) % 7) - 3) + (IF i = 1 THEN 5 ELSE 0)]
Hm(m, n, s) == [i \in 1..m |-> [j \in 1..n |-> ((i * 7 + j * 5 + i * j * 3 + s * 11) % 9) - 4]]
ZeroM(m, n) == [i \in 1..m |-> [j \in 1..n |-> 0]]
CI(c, n, s) == IF c THEN Hs(n, s) ELSE Zeros(n)
Inj(n) == UNION {{s \in [1..k -> 0..(n-1)] : \A a, b \in 1..k : a # b => s[a] # s[b]} : k \in 1..n}
BL == BOOLEAN
Ax == {0, 1}
Dxs == {<<1, 1>>, <<2, 1>>, <<1, 2>>, <<5, 1>>}
FFTN == {1, 2, 3, 4, 5, 6, 8}
Kinds == {"regular", "dirichlet", "circular"}
Descs ==
  UNION {
   {[k |-> "identity", n |-> n, m |-> m, axis |-> a, cin |-> TRUE] : n \in 1..NMax, m \in 1..NMax, a \in Ax},
   {[k |-> "matrix", n |-> n, A |-> Hm(m, n, s), Ai |-> IF c THEN Hm(m, n, s + 1) ELSE ZeroM(m, n), cplx |-> c, axis |-> a, cin |-> TRUE]
      : m \in 1..4, n \in 1..4, c \in BL, a \in Ax, s \in {0}},
   {[k |-> "real_matrix", n |-> n, A |-> Hm(m, n, 2), Ai |-> ZeroM(m, n), axis |-> 0, cin |-> TRUE] : m \in 1..4, n \in 1..4},
   {[k |-> "sparse_real_matrix", n |-> n, A |-> Hm(m, n, 3), Ai |-> ZeroM(m, n), axis |-> a, cin |-> FALSE] : m \in 1..3, n \in 1..3, a \in Ax},
   {[k |-> "diagonal", n |-> n, v |-> Hs(n, 1), vi |-> CI(c, n, 2), cplx |-> c, axis |-> a, cin |-> TRUE] : n \in 1..4, c \in BL, a \in Ax},
   {[k |-> "scalar_mult", n |-> n, a |-> 3, ai |-> IF c THEN -2 ELSE 0, cplx |-> c, axis |-> 0, cin |-> TRUE] : n \in 1..3, c \in BL},
   {[k |-> "zero", n |-> n, m |-> m, axis |-> a, cin |-> TRUE] : n \in 1..3, m \in 1..3, a \in Ax},
   {[k |-> "realpart", n |-> n, axis |-> 0, cin |-> TRUE] : n \in 1..3},
   {[k |-> "flipud", n |-> n, axis |-> 0, cin |-> TRUE] : n \in 1..NMax},
   {[k |-> "sum", n |-> n, axis |-> 0, cin |-> TRUE] : n \in 1..NMax},
   {[k |-> "symmetrize", n |-> n, axis |-> 0, cin |-> TRUE] : n \in 1..NMax},
   {[k |-> "pad_zeros", n |-> n, before |-> b, after |-> c, axis |-> 0, cin |-> TRUE] : n \in 1..3, b \in 0..2, c \in 0..2},
   {[k |-> "restriction", n |-> 4, I |-> s, axis |-> (Len(s) + s[1]) % 2, cin |-> TRUE] : s \in Inj(4)},
   {[k |-> "restriction", n |-> n, I |-> s, axis |-> 0, cin |-> TRUE] : n \in 1..3, s \in Inj(1) \cup {<<0>>}},
   {[k |-> kk, n |-> n, axis |-> a, cin |-> TRUE] : kk \in {"cumsum", "heaviside", "diff", "inv_heaviside"}, n \in 1..NMax, a \in Ax},
   {[k |-> "running_average", n |-> n, len |-> len, axis |-> (n + len) % 2, cin |-> TRUE] : n \in 1..(NMax+1), len \in 1..(NMax+1)},
   {[k |-> "fir_filter", n |-> n, h |-> Hs(len, 4), hi |-> CI(c, len, 5), cplx |-> c, axis |-> (n + len) % 2, cin |-> TRUE]
      : n \in 1..(NMax+1), len \in 1..(NMax+1), c \in BL},
   {[k |-> "convolve", n |-> n, h |-> Hs(len, 6), hi |-> CI(c, len, 1), offset |-> o, cplx |-> c, axis |-> (n + o) % 2, cin |-> TRUE]
      : n \in 1..NMax, len \in 1..(NMax - 1), o \in 0..(NMax - 2), c \in BL},
   {[k |-> "circulant", n |-> n, h |-> Hs(len, 2), axis |-> (n + len) % 2, cin |-> FALSE] : n \in 1..(NMax+1), len \in 1..(NMax+1)},
   {[k |-> "first_derivative", n |-> n, dxn |-> dx[1], dxd |-> dx[2], kind |-> kk, axis |-> 0, cin |-> TRUE]
      : n \in 2..(NMax+1), dx \in Dxs, kk \in {"forward", "backward", "centered"}},
   {[k |-> "second_derivative", n |-> n, dxn |-> dx[1], dxd |-> dx[2], axis |-> 0, cin |-> TRUE] : n \in 3..(NMax+1), dx \in Dxs \ {<<5, 1>>}},
   {[k |-> "tv", n |-> n, kind |-> kk, axis |-> a, cin |-> TRUE] : n \in 2..(NMax+1), kk \in Kinds, a \in Ax},
   {[k |-> "tv2D", n |-> 0, shape |-> <<r, c>>, kind |-> kk, axis |-> 0, cin |-> FALSE] : r \in 2..3, c \in 2..3, kk \in Kinds},
   {[k |-> "dot", n |-> 0, v |-> Hs(n, 3), vshape |-> <<n>>, adj |-> b, axis |-> 0, cin |-> FALSE] : n \in 1..4, b \in BL},
   {[k |-> "dot", n |-> 0, v |-> Hs(6, 2), vshape |-> <<2, 3>>, adj |-> b, axis |-> 0, cin |-> FALSE] : b \in BL},
   {[k |-> "reshape", n |-> 0, shape |-> <<2, 3>>, out |-> o, order |-> ord, axis |-> 0, cin |-> TRUE] : o \in {<<3, 2>>, <<6>>, <<1, 6>>}, ord \in {"C", "F"}},
   {[k |-> "reshape", n |-> 0, shape |-> <<2, 2, 3>>, out |-> o, order |-> ord, axis |-> 0, cin |-> TRUE] : o \in {<<4, 3>>, <<3, 2, 2>>}, ord \in {"C", "F"}},
   {[k |-> "arr2vec", n |-> 0, shape |-> s, axis |-> 0, cin |-> TRUE] : s \in {<<2, 3>>, <<2, 2, 2>>, <<3, 1>>}},
   {[k |-> "fft", n |-> n, nfft |-> nf, mode |-> md, axis |-> a, cin |-> (md = "c2c")] : n \in 1..5, nf \in FFTN, md \in {"r2c", "c2c"}, a \in Ax},
   {[k |-> "convolveND", n |-> 0, shape |-> s, h |-> Hs(hs[1] * hs[2], 3), hi |-> CI(c, hs[1] * hs[2], 4), hshape |-> hs, offs |-> o, axes |-> <<0, 1>>, cplx |-> c, axis |-> 0, cin |-> TRUE]
      : s \in {<<2, 3>>, <<3, 3>>}, hs \in {<<2, 2>>, <<1, 3>>, <<3, 2>>}, o \in {<<0, 0>>, <<1, 1>>, <<0, 1>>}, c \in BL},
   {[k |-> "convolveND", n |-> 0, shape |-> <<2, 2, 3>>, h |-> Hs(4, 3), hi |-> Zeros(4), hshape |-> <<2, 2>>, offs |-> o, axes |-> ax, cplx |-> FALSE, axis |-> 0, cin |-> TRUE]
      : o \in {<<0, 0>>, <<1, 0>>}, ax \in {<<0, 1>>, <<0, 2>>, <<1, 2>>}},
   {[k |-> "convolveND", n |-> 0, shape |-> s, h |-> Hs(3, 3), hi |-> CI(c, 3, 4), hshape |-> <<3>>, offs |-> o, axes |-> ax, cplx |-> c, axis |-> 0, cin |-> TRUE]
      : s \in {<<2, 3>>, <<4, 2>>}, o \in {<<0>>, <<2>>}, ax \in {<<0>>, <<1>>}, c \in BL},
   {[k |-> "convolveND", n |-> 0, shape |-> <<2, 2, 3>>, h |-> Hs(8, 3), hi |-> Zeros(8), hshape |-> <<2, 2, 2>>, offs |-> o, axes |-> <<0, 1, 2>>, cplx |-> FALSE, axis |-> 0, cin |-> TRUE]
      : o \in {<<0, 0, 0>>, <<1, 0, 1>>}}
  }
Admissible(d) ==
  /\ d.k = "running_average" => d.len <= d.n
  /\ d.k = "fir_filter" => Len(d.h) <= d.n
  /\ d.k = "convolve" => d.offset < Len(d.h)
  /\ d.k = "circulant" => Len(d.h) <= d.n
  /\ d.k = "fft" => d.n <= d.nfft
  /\ d.k = "convolveND" => \A s \in 1..Len(d.offs) : d.offs[s] < d.hshape[s]
  /\ (d.k = "arr2vec" /\ Len(d.shape) = 1) => TRUE
VARIABLES d, probed
vars == <<d, probed>>
Init == /\ d \in {x \in Descs : Admissible(x)}
        /\ probed = 0
        /\ Emit => PrintT(<<"CASE", ToJson(d)>>)
(* a user applies the operator to the j-th unit vector, then the adjoint *)
Probe == /\ probed < NCols(d)
         /\ probed' = probed + 1
         /\ UNCHANGED d
Next == Probe
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
Col(j) == [i \in 1..Rows(d) |-> Entry(d, i, j)]
ColNormSq(j) == SumS([i \in 1..Rows(d) |-> (Entry(d, i, j)[1] \div 8) * (Entry(d, i, j)[1] \div 8)
                                          + (Entry(d, i, j)[2] \div 8) * (Entry(d, i, j)[2] \div 8)])
RowSum(i) == SumS([j \in 1..NCols(d) |-> Entry(d, i, j)[1]])
(* laws of the documented matrices, evaluated for every descriptor *)
Law ==
  /\ Rows(d) >= 1 /\ NCols(d) >= 1
  /\ probed <= NCols(d)
  (* difference operators annihilate constants except at a Dirichlet end *)
  /\ d.k = "first_derivative" => \A i \in 1..d.n : RowSum(i) = 0
  /\ d.k = "second_derivative" => \A i \in 1..d.n : RowSum(i) = 0
  /\ (d.k = "tv" /\ d.kind # "dirichlet") => \A i \in 1..d.n : RowSum(i) = 0
  (* selections and permutations have unit columns / rows *)
  /\ d.k \in {"flipud", "pad_zeros", "reshape", "arr2vec"} => \A j \in 1..NCols(d) :
        Cardinality({i \in 1..Rows(d) : Entry(d, i, j) # Z}) = 1
  /\ d.k = "restriction" => \A i \in 1..Rows(d) : RowSum(i) = SC
  /\ d.k = "symmetrize" => \A i \in 1..d.n : \A j \in 1..d.n : Entry(d, i, j) = Entry(d, 2 * d.n + 1 - i, j)
  (* shift invariance of convolutions away from the boundary, and of circulants everywhere *)
  /\ d.k \in {"convolve", "fir_filter", "running_average"} => \A i, j \in 1..(d.n - 1) : Entry(d, i, j) = Entry(d, i + 1, j + 1)
  /\ d.k = "circulant" => \A i, j \in 1..d.n : Entry(d, i, j) = Entry(d, (i % d.n) + 1, (j % d.n) + 1)
  /\ d.k = "running_average" => \A i \in 1..d.n : RowSum(i) <= SC
(* cumulative sum and difference are mutually inverse, also when weighted *)
InvLaw ==
  /\ d.k = "cumsum" => LET e == [k |-> "diff", n |-> d.n] IN \A i, j \in 1..d.n :
       SumS([t \in 1..d.n |-> (Entry(e, i, t)[1] \div SC) * (Entry(d, t, j)[1] \div SC)]) = IF i = j THEN 1 ELSE 0
  /\ d.k = "heaviside" => LET e == [k |-> "inv_heaviside", n |-> d.n] IN \A i, j \in 1..d.n :
       Abs(SumS([t \in 1..d.n |-> (Entry(e, i, t)[1] * Entry(d, t, j)[1]) \div SC]) - (IF i = j THEN SC ELSE 0)) <= 2 * d.n + 4
  /\ d.k = "fft" => \A i, j \in 1..d.n :      \* columns of the (zero padded) DFT are orthogonal
       LET s == SumS([t \in 1..d.nfft |-> (Entry(d, t, i)[1] * Entry(d, t, j)[1] + Entry(d, t, i)[2] * Entry(d, t, j)[2]) \div SC])
       IN Abs(s - (IF i = j THEN d.nfft * SC ELSE 0)) <= 4 * d.nfft + 8
=============================================================================
