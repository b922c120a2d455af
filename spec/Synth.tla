------------------------------- MODULE Synth --------------------------------
(* Synthetic data.  A signal batch is a table of S columns over D rows, all    *)
(* zero outside one shared support; a support is the outcome of drawing K      *)
(* places (or blocks of B places) one after the other without replacement.     *)
EXTENDS Lin, FiniteSetsExt
Q == 10000
FQ(a, b) == FMul(a, b, Q)
Support(D, K, s) == Len(s) = K /\ (\A i \in 1..K : s[i] \in 0..(D - 1)) /\ \A i, j \in 1..K : i < j => s[i] # s[j]
Sorted(s) == \A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1]
ToSet0(s) == {s[i] : i \in 1..Len(s)}
(* the places covered by blocks bs of length B *)
Cover(bs, B) == {b * B + t : b \in bs, t \in 0..(B - 1)}
Zero(X, D, S, places) == \A i \in 0..(D - 1), c \in 1..S : i \notin places => X[i + 1][c] = 0
Full(X, S, places) == \A i \in places, c \in 1..S : X[i + 1][c] # 0
Gram2(A, B) == Mat(Cols(A), Cols(B), LAMBDA i, j : SumS([r \in 1..Len(A) |-> FQ(A[r][i], B[r][j])]))
IdQ(n) == Mat(n, n, LAMBDA i, j : IF i = j THEN Q ELSE 0)
(* cosines of the angles in use, scale Q *)
CosDeg(t) == CASE t = 0 -> 10000 [] t = 5 -> 9962 [] t = 10 -> 9848 [] t = 15 -> 9659 [] t = 20 -> 9397 [] t = 30 -> 8660 [] t = 40 -> 7660 [] t = 45 -> 7071 [] t = 60 -> 5000 [] t = 72 -> 3090 [] t = 75 -> 2588 [] t = 90 -> 0
(* two orthonormal bases whose smallest principal angle has cosine c, every other being 90 degrees: *)
(* the cross Gram matrix has one singular value c and rank at most one                             *)
CrossOK(G, c, tol) == LET n == Len(G) IN
   /\ Near(SumS([i \in 1..n |-> SumS([j \in 1..n |-> FQ(G[i][j], G[i][j])])]), FQ(c, c), tol)
   /\ \A i1, i2, j1, j2 \in 1..n : (i1 < i2 /\ j1 < j2) => Near(FQ(G[i1][j1], G[i2][j2]), FQ(G[i1][j2], G[i2][j1]), tol)
=============================================================================
