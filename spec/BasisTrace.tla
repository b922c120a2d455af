----------------------------- MODULE BasisTrace -----------------------------
(* Judges recorded bases / transforms: adjoint, isometry, documented matrix.  *)
EXTENDS LopTrace, Wavelet
T4 == 14
GramNear(M, tol) ==       \* columns of M (recorded) are orthonormal
  \A a, b \in 1..Cols(M.re) : a <= b =>
    /\ Abs(SumS([i \in 1..Len(M.re) |-> FMul(M.re[i][a], M.re[i][b], SC) + FMul(M.im[i][a], M.im[i][b], SC)])
           - (IF a = b THEN SC ELSE 0)) <= tol
    /\ Abs(SumS([i \in 1..Len(M.re) |-> FMul(M.re[i][a], M.im[i][b], SC) - FMul(M.im[i][a], M.re[i][b], SC)])) <= tol
RowsOrtho(M, tol) == GramNear(Dag(M), tol)
IsOrthoTransform(d) == d.k \in {"fourier_basis", "cosine_basis", "walsh_hadamard_basis"}
     \/ (d.k \in {"dwt", "dwt2D"} /\ ~d.basis) \/ (d.k = "random" /\ d.name = "random_onb_dict")
IsOrthoRows(d) == d.k \in {"fourier_basis", "cosine_basis", "walsh_hadamard_basis"}
     \/ (d.k \in {"dwt", "dwt2D"} /\ d.basis) \/ (d.k = "random" /\ d.name \in {"random_onb_dict", "random_orthonormal_rows_dict"})
(* transform matrix expected for a wavelet descriptor, as a sequence of columns over the signal *)
DwtColsX(d) == TLCEval([j \in 1..d.n |-> DwtCol(d.n, d.wavelet, d.level, j)])
(* 2-D / N-D: expected image (flattened) of the unit array with a one at flat position j *)
Ext(sh, axes) == [t \in 1..Len(sh) |-> IF \E s \in 1..2 : axes[s] + 1 = t THEN NextPow2(sh[t]) ELSE sh[t]]
Dwt2Col(d, j) ==
  LET sh == d.shape  a0 == d.axes[1] + 1  a1 == d.axes[2] + 1
      osh == Ext(sh, d.axes)
      ix == Unflat(j - 1, sh)
      X == TLCEval([r \in 1..osh[a0] |-> [c \in 1..osh[a1] |-> IF ix[a0] = r - 1 /\ ix[a1] = c - 1 THEN WS ELSE 0]])
      Y == Dwt2(X, d.wavelet, d.level, osh[a0], osh[a1])
  IN TLCEval([p \in 1..Size(osh) |-> LET o == Unflat(p - 1, osh) IN
       IF \A t \in 1..Len(sh) : t \in {a0, a1} \/ o[t] = ix[t] THEN Y[o[a0] + 1][o[a1] + 1] ELSE 0])
WaveOK(ev) ==
  LET d == ev.d
      (* recorded transform columns *)
      M == IF d.basis THEN ev.adj ELSE ev.fwd
      n == IF d.basis THEN ev.m ELSE ev.n
  IN IF d.k = "dwt"
     THEN n = d.n /\ LET X == DwtColsX(d) IN \A j \in 1..n : VNear([i \in 1..Len(M.re) |-> M.re[i][j]], X[j], T4)
     ELSE n = Size(d.shape) /\ \A j \in 1..n : VNear([i \in 1..Len(M.re) |-> M.re[i][j]], Dwt2Col(d, j), T4)
BasisClauses(ev) ==
  LET a == AdjClauses(ev) IN
  IF a \cap {"exception", "shape", "finite"} # {} THEN a
  ELSE a
   \cup C("isometry", IsOrthoTransform(ev.d) => GramNear(ev.fwd, 10 + 2 * ev.m))
   \cup C("inverse", IsOrthoRows(ev.d) => RowsOrtho(ev.fwd, 10 + 2 * ev.n))
   \cup (IF ev.d.k \in {"fourier_basis", "dirac_fourier_basis", "cosine_basis", "walsh_hadamard_basis"}
         THEN IF ev.m # Rows(ev.d) \/ ev.n # NCols(ev.d) THEN {"documented-shape"}
              ELSE C("documented-matrix", MNear(ev.fwd.re, RowsRe(ev.d), 8) /\ MNear(ev.fwd.im, RowsIm(ev.d), 8))
         ELSE {})
   \cup (IF ev.d.k \in {"dwt", "dwt2D"} THEN C("documented-wavelet", WaveOK(ev)) ELSE {})
   \cup C("to-matrix", CMNear(ev.tm, ev.fwd, T1))
(* dictionary matrices *)
MatEnt(d, i, j) ==
  LET n == d.n
      F(q) == Entry([k |-> q, n |-> n], i, ((j - 1) % n) + 1)
      I == IF i = j THEN <<SC, 0>> ELSE <<0, 0>>
      (* the DCT dictionary is stored as the transform matrix: rows are the DCT-II waves *)
      FT == Entry([k |-> "cosine_basis", n |-> n], ((j - 1) % n) + 1, i)
  IN CASE d.name = "fourier_basis" -> F("fourier_basis")
       [] d.name = "cosine_basis" -> FT
       [] d.name = "hadamard_basis" -> F("hadamard_natural")
       [] d.name = "hadamard" -> IF PopParity(i - 1, j - 1) = 1 THEN <<-SC, 0>> ELSE <<SC, 0>>
       [] d.name = "dirac_cosine_basis" -> IF j <= n THEN I ELSE FT
       [] d.name = "dirac_hadamard_basis" -> IF j <= n THEN I ELSE F("hadamard_natural")
       [] d.name = "dirac_hadamard_cosine_basis" -> IF j <= n THEN I ELSE IF j <= 2 * n THEN F("hadamard_natural") ELSE FT
       [] d.name = "wavelet_basis" -> <<0, 0>>
MatCols(d) == d.n * (CASE d.name \in {"dirac_cosine_basis", "dirac_hadamard_basis"} -> 2 [] d.name = "dirac_hadamard_cosine_basis" -> 3 [] OTHER -> 1)
MatClauses(ev) ==
  IF ev.exc # "" THEN {"exception"}
  ELSE IF ~ShapeOK(ev.M, ev.d.n, MatCols(ev.d)) THEN {"shape"}
  ELSE IF ev.d.name = "wavelet_basis"
       THEN C("documented-wavelet", LET X == DwtColsX(ev.d) IN   \* basis rows are the transform of unit signals
                \A j \in 1..ev.d.n : VNear(ev.M.re[j], X[j], T4))
       ELSE C("documented-matrix", \A i \in 1..ev.d.n : \A j \in 1..MatCols(ev.d) :
              LET e == MatEnt(ev.d, i, j) IN Near(ev.M.re[i][j], e[1], 8) /\ Near(ev.M.im[i][j], e[2], 8))
BasisVerdict(p, ev) == IF ev.kind = "mat" THEN MatClauses(ev) ELSE BasisClauses(ev)
=============================================================================
