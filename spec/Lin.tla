-------------------------------- MODULE Lin --------------------------------
(* Integer / fixed point linear algebra used by every specification.         *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
Abs(a) == IF a < 0 THEN -a ELSE a
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Sign(a) == IF a > 0 THEN 1 ELSE IF a < 0 THEN -1 ELSE 0
Lim == 1073741824                       \* marker used by the recorder for NaN/inf/huge
SumS(s) == FoldLeft(LAMBDA acc, v : acc + v, 0, s)
MaxS(s) == FoldLeft(LAMBDA acc, v : IF v > acc THEN v ELSE acc, s[1], s)
MinS(s) == FoldLeft(LAMBDA acc, v : IF v < acc THEN v ELSE acc, s[1], s)
MaxAbs(s) == FoldLeft(LAMBDA acc, v : IF Abs(v) > acc THEN Abs(v) ELSE acc, 0, s)
Vec(n, F(_)) == TLCEval([i \in 1..n |-> F(i)])
Dot(u, v) == SumS([i \in 1..Len(u) |-> u[i] * v[i]])
Zeros(n) == [i \in 1..n |-> 0]
Basis(n, j) == [i \in 1..n |-> IF i = j THEN 1 ELSE 0]
VAdd(u, v) == TLCEval([i \in 1..Len(u) |-> u[i] + v[i]])
VSub(u, v) == TLCEval([i \in 1..Len(u) |-> u[i] - v[i]])
VScale(a, u) == TLCEval([i \in 1..Len(u) |-> a * u[i]])
Mat(m, n, F(_, _)) == TLCEval([i \in 1..m |-> [j \in 1..n |-> F(i, j)]])
Cols(A) == IF Len(A) = 0 THEN 0 ELSE Len(A[1])
Transp(A) == TLCEval([j \in 1..Cols(A) |-> [i \in 1..Len(A) |-> A[i][j]]])
MatVec(A, x) == TLCEval([i \in 1..Len(A) |-> Dot(A[i], x)])
MatTVec(A, y) == TLCEval([j \in 1..Cols(A) |-> SumS([i \in 1..Len(A) |-> A[i][j] * y[i]])])
MatMul(A, B) == LET BT == Transp(B) IN
   TLCEval([i \in 1..Len(A) |-> [j \in 1..Cols(B) |-> Dot(A[i], BT[j])]])
Near(a, b, tol) == Abs(a - b) <= tol
VNear(u, v, tol) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : Near(u[i], v[i], tol)
MNear(A, B, tol) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : VNear(A[i], B[i], tol)
VFinite(u) == \A i \in 1..Len(u) : Abs(u[i]) < Lim
MFinite(A) == \A i \in 1..Len(A) : VFinite(A[i])
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, a % Abs(b))
RECURSIVE ISqrtR(_, _, _)
ISqrtR(n, lo, hi) == IF hi - lo <= 1 THEN lo
   ELSE LET mid == (lo + hi) \div 2 IN
        IF mid * mid <= n THEN ISqrtR(n, mid, hi) ELSE ISqrtR(n, lo, mid)
ISqrt(n) == ISqrtR(n, 0, 46341)        \* floor(sqrt(n)) for 0 <= n < 2^31
(* product of two fixed point numbers of scale Q <= 46340: exact up to one unit,
   no overflow as long as the result itself is below 2^31 *)
FMul(a, b, Q) == LET A == Abs(a)  B0 == Abs(b)  a1 == A \div Q  a0 == A % Q  b1 == B0 \div Q  b0 == B0 % Q
                     m == a1 * b1 * Q + a1 * b0 + a0 * b1 + (a0 * b0 + Q \div 2) \div Q
                 IN IF (a < 0) = (b < 0) THEN m ELSE -m
(* quotient a/b of fixed point numbers of scale Q = q1*q2, q1 and q2 below 2^15 / ... : long division in
   two steps, each multiplying a remainder smaller than |b| < 2^31 / 200 by at most 200 *)
FDiv2(a, b, q1, q2) == LET f == 1 + Abs(b) \div 8000000     \* large operands: both scaled down
                     A == Abs(a) \div f  D == Abs(b) \div f
                     d0 == A \div D  r0 == A % D
                     d1 == (r0 * q1) \div D  r1 == (r0 * q1) % D
                     d2 == (r1 * q2 + D \div 2) \div D
                     m == d0 * q1 * q2 + d1 * q2 + d2
                 IN IF (a < 0) = (b < 0) THEN m ELSE -m
FDot(u, v, Q) == SumS([i \in 1..Len(u) |-> FMul(u[i], v[i], Q)])
=============================================================================
