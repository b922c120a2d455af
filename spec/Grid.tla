-------------------------------- MODULE Grid --------------------------------
(* Sampling grids and kernels: the phase transition grid of (K, M) experiments,   *)
(* contiguous block layouts, image kernels and the Ricker wavelet.               *)
EXTENDS Lin
GS == 10000
IsPow2(n) == \E k \in 0..20 : n = 2 ^ k
(* ------------------------- phase transition grid ------------------------- *)
MMin(N) == IF N <= 256 THEN 16 ELSE 32
NumR(N) == Min2(32, N \div 4)          \* sparsity ratios k / (2 NumR), k = 1..NumR
NumE(N) == N \div (2 * MMin(N))        \* undersampling levels M = e MMin, up to N/2
CeilDiv(a, b) == (a + b - 1) \div b
KOf(N, e, k) == CeilDiv(k * e * MMin(N), 2 * NumR(N))
MOf(N, e) == e * MMin(N)
(* ------------------------------- exponential ------------------------------- *)
(* exp(-j/32) at scale 30000, from the binary expansion of j *)
EScale == 30000
EBit(b) == CASE b = 1 -> 29077 [] b = 2 -> 28182 [] b = 4 -> 26475 [] b = 8 -> 23364 [] b = 16 -> 18196 [] b = 32 -> 11036
             [] b = 64 -> 4060 [] b = 128 -> 549 [] b = 256 -> 10
Exp32(j) == IF j >= 512 THEN 0 ELSE
  FoldLeft(LAMBDA acc, b : IF (j \div b) % 2 = 1 THEN (acc * EBit(b) + EScale \div 2) \div EScale ELSE acc, EScale, <<1, 2, 4, 8, 16, 32, 64, 128, 256>>)
(* ----------------------------- Gaussian kernel ----------------------------- *)
(* size h x w; standard deviations sx, sy in half units (1, 2 or 4): exp(-x^2/(2 sx^2) - y^2/(2 sy^2)) normalised *)
Off(i, len) == 2 * (i - 1) - (len - 1)                       \* position in half units
Prof(len, s) == [i \in 1..len |-> Exp32((16 * Off(i, len) * Off(i, len)) \div (s * s))]
GaussK(h, w, sx, sy) ==
  LET px == Prof(w, sx)  py == Prof(h, sy)
      tx == SumS(px)  ty == SumS(py)
  IN [i \in 1..h |-> [j \in 1..w |-> (((py[i] * GS) \div ty) * ((px[j] * GS) \div tx)) \div GS]]
(* ------------------------------ fixed kernels ------------------------------ *)
BoxK(s) == [i \in 1..s |-> [j \in 1..s |-> GS \div (s * s)]]
Scl(M) == [i \in 1..Len(M) |-> [j \in 1..Len(M[1]) |-> GS * M[i][j]]]
Named(name) == CASE name = "sharpen" -> Scl(<< <<0, -1, 0>>, <<-1, 5, -1>>, <<0, -1, 0>> >>)
   [] name = "laplacian" -> Scl(<< <<0, 1, 0>>, <<1, -4, 1>>, <<0, 1, 0>> >>)
   [] name = "sobel_x" -> Scl(<< <<-1, 0, 1>>, <<-2, 0, 2>>, <<-1, 0, 1>> >>)
   [] name = "sobel_y" -> Scl(<< <<-1, -2, -1>>, <<0, 0, 0>>, <<1, 2, 1>> >>)
(* Ricker wavelet where (pi f t)^2 = j/32 *)
RickerAt(j) == ((16 - j) * ((Exp32(j) * GS) \div EScale)) \div 16
(* -------------------------------- layouts -------------------------------- *)
Starts(n, b) == [i \in 1..(n \div b) |-> (i - 1) * b]
Ends(n, b) == [i \in 1..(n \div b) |-> i * b - 1]
=============================================================================
