--------------------------- MODULE SpectrumTrace ----------------------------
EXTENDS Spectrum, TraceBase
Q == 10000
QM(a, b) == FMul(a, b, Q)
QDot(u, v) == SumS([i \in 1..Len(u) |-> QM(u[i], v[i])])
Col(M, j) == [i \in 1..Len(M) |-> M[i][j]]
QNorm(v) == LET f == 1 + MaxAbs(v) \div 8000 IN f * ISqrt(SumS([i \in 1..Len(v) |-> (v[i] \div f) * (v[i] \div f)]))
DivV(v, d) == [i \in 1..Len(v) |-> v[i] \div d]
AV(t, v) == DivV(MatVec(t.A, v), t.den)
ATV(t, v) == DivV(MatTVec(t.A, v), t.den)
Ortho(M, k, tol) == \A a, b \in 1..k : a <= b => Near(QDot(Col(M, a), Col(M, b)), IF a = b THEN Q ELSE 0, tol)
Tol(d) == IF d.x64 = 1 THEN 8 + 2 * Len(d.t.s) ELSE 25 + 4 * Len(d.t.s)
Big(d) == Len(d.t.s) > 6
SvdVerdict(ev) ==
  LET d == ev.d  t == d.t  k == d.k  r == Len(t.s)  tol == Tol(d)  T == tol * (2 + t.s[1] \div 2) IN
  IF ~(MFinite(ev.U) /\ MFinite(ev.V) /\ VFinite(ev.S)) THEN {"not-finite"} ELSE
   C("shape", Len(ev.S) = k /\ Len(ev.U) = Len(t.A) /\ Cols(ev.U) = k /\ Len(ev.V) = Cols(t.A) /\ Cols(ev.V) = k)
   \cup C("sorted", \A i \in 1..(k - 1) : ev.S[i] >= ev.S[i + 1] - 2)
   \cup C("left-orthonormal", Ortho(ev.U, k, tol)) \cup C("right-orthonormal", Ortho(ev.V, k, tol))
   \cup C("A-v", \A i \in 1..k : VNear(AV(t, Col(ev.V, i)), [a \in 1..Len(ev.U) |-> QM(ev.S[i], ev.U[a][i])], T))
   \cup C("At-u", \A i \in 1..k : VNear(ATV(t, Col(ev.U, i)), [a \in 1..Len(ev.V) |-> QM(ev.S[i], ev.V[a][i])],
              T + (IF ev.steps < r THEN ev.bnd[i] ELSE 0)))
   \cup C("values", \A i \in 1..k : IF ev.steps >= r \/ i <= ev.nc THEN Near(ev.S[i], t.s[i] * Q, T) ELSE ev.S[i] <= t.s[i] * Q + T)
   \cup C("bounds", \A i \in 1..k : ev.bnd[i] >= 0 /\ \E j \in 1..r : Abs(ev.S[i] - t.s[j] * Q) <= ev.bnd[i] + T)
   \cup C("converged-count", ev.nc <= k /\ ev.nc >= 0 /\ \A i \in 1..k : i <= ev.nc => ev.bnd[i] <= 4 + ev.S[i] \div 1000)
   \cup C("all-found", (ev.exact = 1 /\ ev.steps >= r) => ev.nc = k)
BproVerdict(ev) ==
  LET d == ev.d  t == d.t  k == d.k  tol == Tol(d)  T == tol * (2 + t.s[1] \div 2) IN
  IF ~(MFinite(ev.U) /\ MFinite(ev.V) /\ VFinite(ev.alpha) /\ VFinite(ev.beta) /\ VFinite(ev.p)) THEN {"not-finite"} ELSE
   C("left-orthonormal", Ortho(ev.U, k, tol)) \cup C("right-orthonormal", Ortho(ev.V, k, tol))
   \cup C("nonnegative", \A i \in 1..k : ev.alpha[i] >= -T /\ ev.beta[i + 1] >= -T)
   \cup C("left-step", \A i \in 1..k : \* A v_i = alpha_i u_i + beta_{i+1} u_{i+1}
         VNear(AV(t, Col(ev.V, i)), [a \in 1..Len(ev.U) |-> QM(ev.alpha[i], ev.U[a][i]) +
               (IF i < k THEN QM(ev.beta[i + 1], ev.U[a][i + 1]) ELSE IF ev.beta[i + 1] > 0 THEN ev.p[a] ELSE 0)], T))
   \cup C("right-step", \A i \in 1..k : \* A^T u_i = beta_i v_{i-1} + alpha_i v_i
         VNear(ATV(t, Col(ev.U, i)), [a \in 1..Len(ev.V) |-> QM(ev.alpha[i], ev.V[a][i]) + (IF i = 1 THEN 0 ELSE QM(ev.beta[i], ev.V[a][i - 1]))], T))
   \cup C("next", ev.beta[k + 1] > 100 => Near(QNorm(ev.p), ev.beta[k + 1], 4 + ev.beta[k + 1] \div 500)
                                         /\ \A i \in 1..k : Abs(QDot(ev.p, Col(ev.U, i))) <= T)
   \cup C("steps", ev.it = k)
NormVerdict(ev) == LET m == ev.d.t.s[1] * Q IN C("norm", \A i \in 1..Len(ev.v) : Near(ev.v[i], m, 6 + m \div 1500))
BndVerdict(ev) ==
  LET s == ev.d.t.s  hi == s[1] * Q  lo == s[Len(s)] * Q  T == 4 + s[1] IN
  C("upper", Near(ev.up, hi, T) /\ Near(ev.opup, hi, T) /\ Near(ev.both[1], hi, T)) \cup C("lower", Near(ev.lo, lo, T) /\ Near(ev.both[2], lo, T))
(* power iteration: the run limited to n steps returns the n-th power direction and the quotient at the one before *)
Unit(v) == LET n == QNorm(v) IN [i \in 1..Len(v) |-> FDiv2(v[i], n, 100, 100)]
PowVerdict(ev) ==
  LET d == ev.d  t == d.t  n == Len(ev.st)
      D(k) == FoldLeft(LAMBDA v, j : IF QNorm(v) < 50 THEN v ELSE LET w == AV(t, Unit(v)) IN w, [i \in 1..Len(d.b) |-> d.b[i] * Q], [j \in 1..k |-> j])
      zero == \A i \in 1..Len(t.s) : t.s[i] = 0  m == MaxS(AbsS(t.s)) IN
  IF \E k \in 1..n : ~(VFinite(ev.st[k].v) /\ Abs(ev.st[k].s) < Lim) THEN {"not-finite"} ELSE
  IF zero THEN C("zero", \A k \in 1..n : ev.st[k].s = 0 /\ ev.fin.s = 0) ELSE
   C("direction", \A k \in 1..n : UNION {IF QNorm(w) < 2000 THEN {} ELSE C("x", VNear(ev.st[k].v, Unit(w), 40)) : w \in {D(ev.st[k].it)}} = {})
   \cup C("quotient", \A k \in 1..n : UNION {IF QNorm(w) < 2000 THEN {} ELSE C("x", LET u == Unit(w) IN Near(ev.st[k].s, QDot(u, AV(t, u)), 40 * m + 40)) : w \in {D(ev.st[k].it - 1)}} = {})
   \cup C("steps", \A k \in 1..n : ev.st[k].it >= 1 /\ ev.st[k].it <= k /\ (ev.st[k].it < k =>    \* no change at all: nothing left to do
          ev.st[k].it = ev.st[k - 1].it \/ Near(ev.st[k - 1].s, ev.st[IF k > 2 THEN k - 2 ELSE 1].s, 2)))
   \cup C("eigenvalue", d.top # 0 => Near(ev.fin.s, t.s[1] * Q, 30))
   \cup C("eigenvector", d.top # 0 => VNear(AV(t, ev.fin.v), [i \in 1..Len(ev.fin.v) |-> t.s[1] * ev.fin.v[i]], 200 * m) /\ Near(QNorm(ev.fin.v), Q, 15))
   \cup C("stops", \A k \in 1..Len(ev.loose) :   \* the run with a loose tolerance ends at the first small relative change
         LET L == ev.loose[k]  S(j) == ev.seq[j]  small(j) == j > 1 /\ S(j - 1) # 0 /\ 100 * Abs(S(j) - S(j - 1)) <= L.tol * Abs(S(j - 1)) - Abs(S(j - 1)) \div 10
             large(j) == j = 1 \/ 100 * Abs(S(j) - S(j - 1)) > L.tol * Abs(S(j - 1)) + Abs(S(j - 1)) \div 10 IN
         /\ L.it <= Len(ev.seq) => \A j \in 1..(L.it - 1) : ~small(j)
         /\ (L.it < Len(ev.seq)) => ~large(L.it))
SpectrumVerdict(p, ev) ==
  IF ev.exc # "" THEN {"exception"}
  ELSE CASE ev.d.kind = "svd" -> SvdVerdict(ev) [] ev.d.kind = "bpro" -> BproVerdict(ev) [] ev.d.kind = "norm" -> NormVerdict(ev)
         [] ev.d.kind = "bounds" -> BndVerdict(ev) [] ev.d.kind = "power" -> PowVerdict(ev)
=============================================================================
