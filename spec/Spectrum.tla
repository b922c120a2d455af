------------------------------ MODULE Spectrum ------------------------------
(* Matrices with a known singular system: rational orthogonal (or unitary)     *)
(* bases with a common denominator, integer singular values.                   *)
EXTENDS Lin
R2 == [d |-> 5, q |-> << <<3, -4>>, <<4, 3>> >>]
W3 == [d |-> 3, q |-> << <<1, 2, 2>>, <<2, 1, -2>>, <<2, -2, 1>> >>]
H4 == [d |-> 2, q |-> << <<1, 1, 1, 1>>, <<1, -1, 1, -1>>, <<1, 1, -1, -1>>, <<1, -1, -1, 1>> >>]
I1 == [d |-> 1, q |-> << <<1>> >>]
Eye(n) == [d |-> 1, q |-> [i \in 1..n |-> Basis(n, i)]]
(* direct sum, with rows dealt out by a fixed shuffle so that the blocks interleave *)
Sum2(P, R) ==
  LET p == Len(P.q)  r == Len(R.q)
      big == Mat(p + r, p + r, LAMBDA i, j : IF i <= p /\ j <= p THEN P.q[i][j] * R.d ELSE IF i > p /\ j > p THEN R.q[i - p][j - p] * P.d ELSE 0) IN
  [d |-> P.d * R.d, q |-> big]
Prod(P, R) == [d |-> P.d * R.d, q |-> MatMul(P.q, R.q)]
Cyc(P) == LET n == Len(P.q) IN [d |-> P.d, q |-> Mat(n, n, LAMBDA i, j : P.q[i][1 + (j % n)])]
IsOrtho(P) == MatMul(P.q, Transp(P.q)) = Mat(Len(P.q), Len(P.q), LAMBDA i, j : IF i = j THEN P.d * P.d ELSE 0)
(* X diag(s) Y^T, numerators over X.d Y.d *)
Compose(X, s, Y) ==
  LET r == Len(s) IN Mat(Len(X.q), Len(Y.q), LAMBDA i, j : SumS([t \in 1..r |-> X.q[i][t] * s[t] * Y.q[j][t]]))
SortDown(s) == SortSeq(s, LAMBDA a, b : a > b)
AbsS(s) == [i \in 1..Len(s) |-> Abs(s[i])]
=============================================================================
