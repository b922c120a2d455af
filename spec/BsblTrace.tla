----------------------------- MODULE BsblTrace ------------------------------
EXTENDS Bsbl, TraceBase
NB(d) == Cols(d.P) \div d.b
Near1(a, b, p, t) == Near(a, b, t + Abs(b) \div p)
VNear1(u, v, p, t) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : Near1(u[i], v[i], p, t)
Start(d) == [mu |-> [i \in 1..NB(d) |-> Zeros(d.b)], g |-> [i \in 1..NB(d) |-> Q], S0 |-> [i \in 1..NB(d) |-> DiagQ(d.b, Q)],
             lam |-> d.lam, it |-> 0, res |-> VScale(Q, d.y), r2 |-> Q * SumS([i \in 1..Len(d.y) |-> d.y[i] * d.y[i]]), dmu |-> Q, fine |-> 1]
Act(d, a) == [i \in 1..NB(d) |-> d.alg = "np" \/ a.g[i] > d.prune]
(* weights too close to the pruning threshold to tell which side they are on; state too ill conditioned to recompute in fixed point *)
Edge(d, a) == d.alg # "np" /\ \E i \in 1..NB(d) : Near(a.g[i], d.prune, 2)
Tame(d, a) == /\ a.lam >= 1000 /\ a.lam <= 50000
              /\ \A i \in 1..NB(d) : (a.g[i] = 0 \/ a.g[i] > 300) /\ a.g[i] <= 120000
SelfOK(d, s) ==
   C("residual", VNear1(s.res, Resid(d.P, d.y, s.mu, d.b), 5000, 12)) \cup C("residual-norm", Near1(s.r2, FDot(s.res, s.res, Q), 1000, 10 + MaxAbs(s.res) \div 2000))
   \cup C("weights", \A i \in 1..NB(d) : s.g[i] >= 0)
   \cup C("pruned-mean", \A i \in 1..NB(d) : Len(s.mu[i]) = d.b)
(* facts of the mean that need no inverse: lam mu = S0 Phi' residual, and pruned blocks vanish *)
MeanOK(d, a, s, act) ==
   C("pruned-mean", \A i \in 1..NB(d) : act[i] \/ (s.mu[i] = Zeros(d.b) /\ s.g[i] = 0))
   \cup C("mean", a.lam < 300 \/ \A i \in 1..NB(d) : act[i] =>
       LET v == QVec(a.S0[i], QVec(Transp(SubDict(d.P, i, d.b)), s.res)) IN VNear1([c \in 1..d.b |-> FQ(a.lam, s.mu[i][c])], v, 500, 8 + a.g[i] \div 1000))
   \cup C("change", Near1(s.dmu, MaxAbs([j \in 1..Cols(d.P) |-> s.mu[((j - 1) \div d.b) + 1][((j - 1) % d.b) + 1] - a.mu[((j - 1) \div d.b) + 1][((j - 1) % d.b) + 1]]), 2000, 4))
(* the weights, correlation and noise *)
CorrOf(d, s) == LET i == CHOOSE k \in 1..NB(d) : \A j \in 1..NB(d) : s.g[k] >= s.g[j] IN IF d.b = 1 THEN 0 ELSE Over(s.S0[i][1][2], s.g[i])
PriorOK(d, s, r) == C("prior", \A i \in 1..NB(d) : \A p \in 1..d.b : \A q \in 1..d.b : Near1(s.S0[i][p][q], FQ(s.g[i], Pow(r, Abs(p - q))), 300, 8 + s.g[i] \div 400))
Updates(d, a, s, act, P, C2, rs, r) ==
   LET amp == IF d.b = 1 THEN 1 ELSE 1 + (Q \div Max2(ArDen(r, d.b), 200))
       w == IF d.alg = "em" THEN GammaEM(C2, r, d.b, act) ELSE GammaBO(a.g, P, r, d.b, act) IN
   C("correlation", Near(r, rs, 120) \/ (\A i \in 1..NB(d) : s.g[i] < 300))
   \cup C("weight-update", \A i \in 1..NB(d) : Near1(s.g[i], w[i], 40, 30 * amp + a.g[i] \div 300) \/ ~act[i])
   \cup C("noise-update", CASE d.ll = 0 -> s.lam = d.lam
        [] d.ll = 1 -> Near1(s.lam, LamLow(d.P, P, d.b, s.r2), 40, 60)
        [] d.ll = 2 -> (\E i \in 1..NB(d) : Near(s.g[i], 0, 0) /\ act[i]) \/ Near1(s.lam, LamHigh(d.P, P, d.b, s.r2, a.lam, a.g, r, act), 30, 60 * amp))
StepOK(d, a, s) ==
   IF s.it # a.it + 1 THEN {"counts"} ELSE
   SelfOK(d, s) \cup PriorOK(d, s, CorrOf(d, s)) \cup C("bounded-correlation", Abs(CorrOf(d, s)) <= 9900 + 60 \/ (\A i \in 1..NB(d) : s.g[i] < 2000))
   \cup C("no-correlation", d.corr = 1 \/ \A i \in 1..NB(d) : \A p \in 1..d.b : \A q \in 1..d.b : p = q \/ s.S0[i][p][q] = 0)
   \cup C("noise-kept", d.ll # 0 \/ s.lam = a.lam)
   \cup (IF Edge(d, a) THEN {} ELSE LET act == Act(d, a) IN MeanOK(d, a, s, act)
     \cup (IF ~Tame(d, a) \/ (\A i \in 1..NB(d) : ~act[i]) THEN {}
           ELSE UNION {UNION {UNION {Updates(d, a, s, act, P, C2, rs, CorrOf(d, s)) : rs \in {Corr(CorrSum(C2, a.g, act, d.b), d.corr)}} : C2 \in {Second(P)}} : P \in {Posterior(d.P, d.y, d.b, a.S0, a.lam, act)}}))
Finite(s) == VFinite(s.res) /\ VFinite(s.g) /\ (\A i \in 1..Len(s.mu) : VFinite(s.mu[i]))
BsblVerdict(p, ev) ==
  IF ev.exc # "" THEN {"exception"} ELSE
  LET d == ev.d  T == ev.sts  n == Len(T)  prev0(k) == IF k = 1 THEN Start(d) ELSE T[k - 1] IN
  IF \E k \in 1..n : ~Finite(T[k]) THEN {"not-finite"} ELSE
  UNION {IF T[k].it = prev0(k).it THEN C("stays", T[k].mu = T[k - 1].mu) \cup C("stopped", T[k].dmu <= d.eps + 1)
         ELSE StepOK(d, prev0(k), T[k]) \cup C("going", k = 1 \/ prev0(k).dmu >= d.eps - 1) : k \in 1..n}
  \cup C("limit", \A k \in 1..n : T[k].it <= k) \cup C("flat", ev.flat = 1) \cup C("plain", ev.plain = 1)
=============================================================================
