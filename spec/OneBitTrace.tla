---------------------------- MODULE OneBitTrace -----------------------------
EXTENDS OneBit, TraceBase
Q == 10000
QM(a, b) == FMul(a, b, Q)
(* a BIHT run: states with limits 0, 1, 2, ...: x, support, values in half units (exact) *)
Full(n, I, v) == [i \in 1..n |-> SumS([t \in 1..Len(I) |-> IF I[t] = i - 1 THEN v[t] ELSE 0])]
StOK(d, s) ==
  IF \E t \in 1..Len(s.I) : s.I[t] < 0 \/ s.I[t] >= 4 THEN {"support-range"} ELSE
  IF ~VFinite(s.v) THEN {"not-finite"} ELSE
  LET x == Full(4, s.I, s.v) IN
   C("support", Len(s.I) = d.K /\ Len(s.v) = d.K /\ \A a, b \in 1..Len(s.I) : a < b => s.I[a] # s.I[b])
   \cup C("residual", s.r = Miss(d.y, d.A, x)) \cup C("mismatches", s.miss = NMiss(Miss(d.y, d.A, x)))
BihtVerdict(ev) ==
  LET d == ev.d  T == Len(ev.st)  S(t) == ev.st[t]  X(t) == Full(4, ev.st[t].I, ev.st[t].v)
      faults == UNION {StOK(d, S(t)) : t \in 1..T} IN
  IF faults # {} THEN faults ELSE
   C("starts-at-zero", X(1) = Zeros(4) /\ S(1).it = 0)
   \cup C("step", \A t \in 2..T : S(t).it = S(t - 1).it + 1 => X(t) \in Succ(d.A, d.y, X(t - 1), d.K, d.tau))
   \cup C("count", \A t \in 1..T : S(t).it <= t - 1)
   \cup C("stops", \A t \in 2..T : IF S(t - 1).miss = 0 \/ S(t - 1).it < t - 2
                                   THEN S(t).it = S(t - 1).it /\ X(t) = X(t - 1) ELSE S(t).it = S(t - 1).it + 1)
   \cup C("jit-agrees", ev.plain.it = S(T).it /\ ev.plain.v = S(T).v /\ ev.plain.I = S(T).I)
MeasVerdict(ev) == C("signs", \A i \in 1..Len(ev.ys) : ev.ys[i] = SgnV(MatVec(ev.d.A, ev.d.x)))
(* ---- renormalised fixed point: vectors at scale Q ---- *)
Norm2(v) == ISqrt(SumS([i \in 1..Len(v) |-> (v[i] \div 4) * (v[i] \div 4)])) * 4
QDot(u, v) == SumS([i \in 1..Len(u) |-> QM(u[i], v[i])])
Shr(v, t) == [i \in 1..Len(v) |-> Sign(v[i]) * Max2(0, Abs(v[i]) - t)]
RfpStep(d, x, tau) ==
  LET z == MatVec(d.A, x)
      g == MatTVec(d.A, [i \in 1..Len(z) |-> IF d.y[i] * z[i] <= 0 THEN z[i] ELSE 0])   \* y * (y z) = z where violated
      c == QDot(g, x)
      gt == [i \in 1..Len(x) |-> g[i] - QM(c, x[i])]
  IN Shr([i \in 1..Len(x) |-> x[i] - (d.delta * gt[i]) \div 100], tau)
Follows(d, x, tau, z) == \E u \in {RfpStep(d, x, tau)} : LET n == Norm2(u) IN
   n < 1500 \/ VNear([i \in 1..Len(z) |-> QM(z[i], n)], u, 60)
Tau(d, o) == \* delta / (lambda 1.5^o), scale Q
   ((IF o = 0 THEN 10000 ELSE IF o = 1 THEN 6667 ELSE IF o = 2 THEN 4444 ELSE 2963) * d.delta) \div (100 * d.lam)
UnitQ(v) == VFinite(v) /\ MaxAbs(v) <= Q + 20 /\ Near(Norm2(v), Q, 25)
RfpVerdict(ev) ==
  LET d == ev.d  n == Len(ev.inner)  m == Len(ev.outer) IN
   IF \E t \in 1..n : ~VFinite(ev.inner[t].x)      \* only when the shrunk vector vanished: no direction left
   THEN C("not-finite", LET f == Min({t \in 1..n : ~VFinite(ev.inner[t].x)}) IN
             Norm2(RfpStep(d, IF f = 1 THEN ev.x0 ELSE ev.inner[f - 1].x, Tau(d, 0))) < 1500)
   ELSE C("unit", \A t \in 1..n : UnitQ(ev.inner[t].x))
   \cup C("first-step", Follows(d, ev.x0, Tau(d, 0), ev.inner[1].x) /\ VNear(ev.inner[1].prev, ev.x0, 2))
   \cup C("step", \A t \in 2..n : Follows(d, ev.inner[t - 1].x, Tau(d, 0), ev.inner[t].x) /\ VNear(ev.inner[t].prev, ev.inner[t - 1].x, 4))
   \cup C("count", \A t \in 1..n : ev.inner[t].it = t)
   \cup C("rounds", \A o \in 1..m : VFinite(ev.outer[o].x) =>        \* one inner iteration per round; the weight grows by 1.5
            /\ UnitQ(ev.outer[o].x) /\ ev.outer[o].it = 1
            /\ Follows(d, IF o = 1 THEN ev.x0 ELSE ev.outer[o - 1].x, Tau(d, o - 1), ev.outer[o].x))
GuessVerdict(ev) ==
  C("unit", UnitQ(ev.rand) /\ UnitQ(ev.ls))
  \cup (IF ~UnitQ(ev.ls) THEN {} ELSE
       LET z == MatVec(ev.d.A, ev.ls)  g == MatTVec(ev.d.A, z)  b == MatTVec(ev.d.A, ev.d.y) IN
       \* A^T A x is a positive multiple of A^T y
       C("least-squares", (\A i, j \in 1..4 : Abs(g[i] * b[j] - g[j] * b[i]) <= 3000) /\ Dot(g, b) > 0))
OneBitVerdict(p, ev) ==
  IF ev.exc # "" THEN {"exception"}
  ELSE CASE ev.d.kind = "biht" -> BihtVerdict(ev) [] ev.d.kind = "measure" -> MeasVerdict(ev)
         [] ev.d.kind = "rfp" -> RfpVerdict(ev) [] ev.d.kind = "guess" -> GuessVerdict(ev)
=============================================================================
