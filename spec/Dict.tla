-------------------------------- MODULE Dict --------------------------------
(* Dictionaries: complex integer matrices given by real and imaginary parts,   *)
(* atoms of equal length.  Magnitudes are fixed point of scale DS.             *)
EXTENDS Lin, FiniteSetsExt
DS == 1000
ReDot(A, i, B, j) == SumS([r \in 1..Len(A.re) |-> A.re[r][i] * B.re[r][j] + A.im[r][i] * B.im[r][j]])
ImDot(A, i, B, j) == SumS([r \in 1..Len(A.re) |-> A.re[r][i] * B.im[r][j] - A.im[r][i] * B.re[r][j]])   \* <a_i, b_j> = a_i^H b_j
NAt(A) == Cols(A.re)
Mag(a, b) == IF b = 0 THEN Abs(a) * DS ELSE ISqrt((a * a + b * b) * DS * (DS \div 4)) * 2
GramRe(A, B) == Mat(NAt(A), NAt(B), LAMBDA i, j : ReDot(A, i, B, j))
GramIm(A, B) == Mat(NAt(A), NAt(B), LAMBDA i, j : ImDot(A, i, B, j))
AbsGram(A, B) == Mat(NAt(A), NAt(B), LAMBDA i, j : Mag(ReDot(A, i, B, j), ImDot(A, i, B, j)))
(* frame operator sum_j a_j a_j^H *)
FrameRe(A) == Mat(Len(A.re), Len(A.re), LAMBDA r, s : SumS([j \in 1..NAt(A) |-> A.re[r][j] * A.re[s][j] + A.im[r][j] * A.im[s][j]]))
FrameIm(A) == Mat(Len(A.re), Len(A.re), LAMBDA r, s : SumS([j \in 1..NAt(A) |-> A.im[r][j] * A.re[s][j] - A.re[r][j] * A.im[s][j]]))
Off(G) == {p \in (1..Len(G)) \X (1..Len(G)) : p[1] # p[2]}
CohOf(G) == Max({G[p[1]][p[2]] : p \in Off(G)})
(* Babel function by its definition: the worst atom against the worst set of p others *)
BabelDef(G, p) == Max({Max({SumS([t \in 1..Len(G) |-> IF t \in S THEN G[i][t] ELSE 0]) : S \in kSubset(p, (1..Len(G)) \ {i})}) : i \in 1..Len(G)})
RECURSIVE Had(_)
Had(n) == IF n = 1 THEN << <<1>> >> ELSE LET H == Had(n \div 2)  m == n \div 2 IN
   Mat(n, n, LAMBDA i, j : LET v == H[1 + ((i - 1) % m)][1 + ((j - 1) % m)] IN IF i > m /\ j > m THEN -v ELSE v)
=============================================================================
