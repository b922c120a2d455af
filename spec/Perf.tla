-------------------------------- MODULE Perf --------------------------------
(* Recovery evaluation.  Signals in sixteenths (U = 16), matrices integer.     *)
(* Decibels: base two logarithms of rationals computed bit by bit.             *)
EXTENDS Lin, FiniteSetsExt
U == 16
LQ == 16384
SqS(v) == SumS([i \in 1..Len(v) |-> v[i] * v[i]])
Supp(v) == {i \in 1..Len(v) : v[i] # 0}
(* exponent and mantissa of a/b: 2^e <= a/b < 2^(e+1) *)
RECURSIVE Expo(_, _)
Expo(a, b) == IF a >= 2 * b THEN 1 + Expo(a, 2 * b) ELSE IF a < b THEN Expo(2 * a, b) - 1 ELSE 0
RECURSIVE FracBits(_, _, _)
FracBits(v, n, acc) == IF n = 0 THEN acc ELSE
   LET s == (v * v) \div LQ IN
   IF s >= 2 * LQ THEN FracBits(s \div 2, n - 1, 2 * acc + 1) ELSE FracBits(s, n - 1, 2 * acc)
(* log2(a/b) in units of 2^-11, for positive a, b below 2^28 *)
Log2(a, b) == LET e == Expo(a, b)
                  a2 == IF e < 0 THEN a * 2^(-e) ELSE a
                  b2 == IF e > 0 THEN b * 2^e ELSE b
                  m == FDiv2(a2, b2, 128, 128)          \* mantissa at scale LQ
              IN e * 2048 + (IF m >= 2 * LQ THEN 2048 ELSE FracBits(m, 11, 0))
(* 10 log10(a/b) = 3.010300 log2(a/b): hundredths of a decibel *)
DeciBel(a, b) == (Log2(a, b) * 301) \div 2048
SnrNear(db, num, den, tol) == IF den = 0 THEN db >= Lim ELSE IF num = 0 THEN Abs(db) >= Lim ELSE Near(db, DeciBel(num, den), tol)
MaxA(v) == MaxAbs(v)
MinNZ(v) == Min({Abs(v[i]) : i \in Supp(v)})
MinA(v) == Min({Abs(v[i]) : i \in 1..Len(v)})
(* S is a set of k indices with the largest magnitudes of v (ties either way) *)
Largest(v, S, k) == Cardinality(S) = k /\ \A i \in S : \A j \in (1..Len(v)) \ S : Abs(v[i]) >= Abs(v[j])
Success(x, xh, correct) == 4 * correct > 3 * Cardinality(Supp(x)) /\ SqS(x) > 1000 * SqS(VSub(x, xh))
=============================================================================
