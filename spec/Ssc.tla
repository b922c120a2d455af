-------------------------------- MODULE Ssc ---------------------------------
(* Sparse subspace clustering: self-expressive representations.  Points are    *)
(* integer vectors of integer length, columns p[1..D]; unit vectors at scale Q.  *)
EXTENDS Lin, FiniteSetsExt
Q == 10000
Unit(p) == LET s == ISqrt(SumS([i \in 1..Len(p) |-> p[i] * p[i]])) IN [i \in 1..Len(p) |-> (Q * p[i] + (IF p[i] >= 0 THEN s \div 2 ELSE -(s \div 2))) \div s]
QDot(u, v) == FDot(u, v, Q)
(* exact: squared cosine of the angle between integer vectors as a rational, with sign *)
IDot(p, q) == Dot(p, q)
Nrm(p) == ISqrt(IDot(p, p))                  \* exact by construction
CosQ(p, q) == (Q * IDot(p, q)) \div (Nrm(p) * Nrm(q))
(* a smaller angle between (p, q) than between (p, r): larger cosine, exactly *)
Closer(p, q, r) == IDot(p, q) * Nrm(r) > IDot(p, r) * Nrm(q)
NotFarther(p, q, r) == IDot(p, q) * Nrm(r) >= IDot(p, r) * Nrm(q)
Others(n, j) == (1..n) \ {j}
=============================================================================
