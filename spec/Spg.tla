-------------------------------- MODULE Spg ---------------------------------
(* Spectral projected gradient on small smooth problems.  A state is           *)
(* [x, g, xp, gp, h, delta, calls]: iterate, gradient, the previous pair, the  *)
(* recent function values (latest first), slope along the last direction and   *)
(* the number of function evaluations.  Fixed point of scale Q.                *)
EXTENDS Lin
Q == 10000
FQ(a, b) == FMul(a, b, Q)
QDot(u, v) == FDot(u, v, Q)
QDiv(a, b) == FDiv2(a, b, 100, 100)
Sc1(a, v) == TLCEval([i \in 1..Len(v) |-> FQ(a, v[i])])
(* objective: x'Hx/2 - b'x, or sum of x^4/4 minus b'x *)
Val(p, x) == IF p.f = "quad" THEN (QDot(x, MatVec(p.H, x)) \div 2) - Dot(p.b, x)
             ELSE SumS([i \in 1..Len(x) |-> LET s == FQ(x[i], x[i]) IN FQ(s, s) \div 4]) - Dot(p.b, x)
Grad(p, x) == IF p.f = "quad" THEN VSub(MatVec(p.H, x), VScale(Q, p.b))
              ELSE TLCEval([i \in 1..Len(x) |-> FQ(x[i], FQ(x[i], x[i])) - Q * p.b[i]])
(* sets: free, box [l, u], nonnegative orthant, ball of radius r around the origin *)
Clip(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
Norm2(v) == LET f == 1 + MaxAbs(v) \div 20000 IN f * ISqrt(SumS([i \in 1..Len(v) |-> (v[i] \div f) * (v[i] \div f)]))
Proj(c, z) == CASE c.s = "free" -> z
                [] c.s = "box" -> TLCEval([i \in 1..Len(z) |-> Clip(z[i], c.l[i] * Q, c.u[i] * Q)])
                [] c.s = "pos" -> TLCEval([i \in 1..Len(z) |-> Max2(0, z[i])])
                [] c.s = "ball" -> LET m == Norm2(z) IN IF m <= c.r * Q THEN z ELSE TLCEval([i \in 1..Len(z) |-> c.r * QDiv(z[i], m)])
Inside(c, x, tol) == CASE c.s = "free" -> TRUE
                [] c.s = "box" -> \A i \in 1..Len(x) : x[i] >= c.l[i] * Q - tol /\ x[i] <= c.u[i] * Q + tol
                [] c.s = "pos" -> \A i \in 1..Len(x) : x[i] >= -tol
                [] c.s = "ball" -> Norm2(x) <= c.r * Q + tol
OptRes(c, x, g) == MaxAbs(VSub(Proj(c, VSub(x, g)), x))
(* spectral step length from a step s and gradient change y (both scaled alike); outside the safeguards it is one *)
Spectral(s, y) == LET ss == QDot(s, s)  sy == QDot(s, y) IN
   IF sy <= 0 THEN Q ELSE QDiv(ss, sy)
(* next trial length after length a was rejected with value fv, start value f0, slope dl *)
Backtrack(a, fv, f0, dl) ==
  LET den == fv - f0 - FQ(a, dl)
      t == IF den <= 0 THEN 0 ELSE -(QDiv(FQ(FQ(a, a), dl), den) \div 2) IN
   IF t >= Q \div 10 /\ t <= FQ(9 * (Q \div 10), a) THEN t ELSE a \div 2
(* lengths tried: FoldLeft over a bound on the number of trials; stops growing once accepted *)
Trial(p, x, d, a) == Val(p, VAdd(x, Sc1(a, d)))
Search(p, x, d, fmax, f0, gam, dl, most) ==
  FoldLeft(LAMBDA acc, t : IF acc.ok THEN acc ELSE
              LET a == Backtrack(acc.a, acc.f, f0, dl)  fv == Trial(p, x, d, a) IN [a |-> a, f |-> fv, n |-> acc.n + 1, ok |-> fv <= fmax + FQ(gam, FQ(a, dl))],
           LET fv == Trial(p, x, d, Q) IN [a |-> Q, f |-> fv, n |-> 1, ok |-> fv <= fmax + FQ(gam, dl)], [t \in 1..most |-> t])
Push(h, v) == <<v>> \o SubSeq(h, 1, Len(h) - 1)
=============================================================================
