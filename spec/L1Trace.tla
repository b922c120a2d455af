------------------------------- MODULE L1Trace ------------------------------
EXTENDS L1, TraceBase
Rel(a, b, p, t) == Near(a, b, t + Abs(b) \div p)
Bm(d) == MaxAbs(d.b)
Sc(d) == [i \in 1..Len(d.b) |-> QDiv(d.b[i], Bm(d))]
Cfg(d) == [model |-> d.model, w |-> d.w, nn |-> d.nn, gamma |-> d.gamma, par |-> QDiv(d.par, Bm(d))]
Counted(d, s) == d.cnt = 0 \/ (s.nt = s.ct /\ s.nh = s.ch)
(* ---------------- alternating directions ---------------- *)
Pos(d, x) == IF d.nn = 1 THEN [i \in 1..Len(x) |-> Max2(0, x[i])] ELSE x
Up(d, x) == [i \in 1..Len(x) |-> FQ(Bm(d), x[i])]
ZeroOK(d) == CASE d.model = "bp" -> FALSE
               [] d.model = "pen" -> With(ApH(d, d.b), LAMBDA g : \A i \in 1..Len(g) : Abs(g[i]) <= FQ(d.par, d.w[i]) + 3)
               [] d.model = "con" -> Nrm(d.b) <= d.par + 3
ZeroSure(d) == CASE d.model = "bp" -> FALSE
               [] d.model = "pen" -> With(ApH(d, d.b), LAMBDA g : \A i \in 1..Len(g) : Abs(g[i]) <= FQ(d.par, d.w[i]) - 3)
               [] d.model = "con" -> Nrm(d.b) <= d.par - 3
AdmAns(d, s) == C("residual", VNear(s.r, VSub(d.b, Ap(d, s.x)), 8 + MaxAbs(d.b) \div 2000)) \cup C("counts", Counted(d, s))
                \cup C("sign", d.nn = 0 \/ \A i \in 1..Len(s.x) : s.x[i] >= 0)
Obj(c, b, x, r) == WL1(c.w, x) + (IF c.model = "pen" THEN QDiv(Sq(r) \div 2, c.par) ELSE 0)
(* the recorded internal state describes its own point; it stops exactly when the documented test holds *)
AdmSelf(d, c, b, t) ==
   C("primal-residual", VNear(t.rp, VSub(b, Ap(d, t.x)), 8)) \cup C("primal-objective", Rel(t.po, Obj(c, b, t.x, t.rp), 300, 25))
Stop(d, c, b, t, tol, m) ==      \* m > 0: surely; m < 0: possibly
   LET nx == Nrm(t.x)  dx == Nrm(VSub(t.x, t.xp))
       q == IF c.model = "con" THEN tol ELSE RDiv(9 * tol, 10)
       still == dx <= FQ(q, nx) - m
       gap == Abs(t.do - t.po) <= FQ(tol, t.po) - m
       rd == Nrm(t.rd) <= FQ(tol, Nrm(t.z)) - m
       rp == CASE c.model = "bp" -> Nrm(t.rp) <= FQ(tol, Nrm(b)) - m [] c.model = "pen" -> TRUE [] c.model = "con" -> Nrm(t.rp) <= c.par + FQ(tol, c.par) - m IN
   still \/ (gap /\ rd /\ rp)
AdmFinal(d, s) ==
  With(VSub(d.b, Ap(d, s.x)), LAMBDA r : With(ApH(d, r), LAMBDA g :
   CASE d.model = "bp" -> C("feasible", MaxAbs(r) <= 40 + MaxAbs(d.b) \div 400) \cup C("optimal", WL1(d.w, s.x) <= With(BPBest(d, d.b, d.w, d.nn), LAMBDA v : v + 60 + v \div 300))
     [] d.model = "pen" -> C("optimal", Aligned(d, g, d.par, s.x, 60 + MaxAbs(d.b) \div 400))
     [] d.model = "con" -> C("feasible", Nrm(r) <= d.par + 40 + MaxAbs(d.b) \div 400) \cup
                           C("optimal", With(Level(d, g), LAMBDA lv : Aligned(d, g, lv, s.x, 80 + MaxAbs(d.b) \div 300))) \cup C("tight", Nrm(r) >= d.par - 60 - MaxAbs(d.b) \div 300)))
AdmVerdict(d, ev) ==
  LET c == Cfg(d)  b == Sc(d)  mu == MeanAbs(b)
      s0 == [x |-> ApH(d, b), z |-> [i \in 1..Len(d.w) |-> IF d.z0 = 1 THEN RDiv(d.w[i], 2) ELSE 0]] IN
  IF \E k \in 1..Len(ev.sts) : ~VFinite(ev.sts[k].x) THEN {"not-finite"} ELSE
  UNION {AdmAns(d, ev.sts[k]) : k \in 1..Len(ev.sts)} \cup AdmAns(d, ev.fin)
  \cup (IF ev.fin.it = 0 THEN C("zero", ZeroOK(d) /\ MaxAbs(ev.fin.x) = 0) ELSE
        C("nonzero", ~ZeroSure(d)) \cup C("limit", \A k \in 1..Len(ev.sts) : ev.sts[k].it <= 2 * k)
        \cup UNION {C("step", (ev.sts[1].it = 2) => VNear(ev.sts[1].x, Pos(d, Up(d, t.x)), 40)) \cup
                    (IF Len(ev.sts) < 2 THEN {} ELSE UNION {C("step", (ev.sts[2].it = 4) => VNear(ev.sts[2].x, Pos(d, Up(d, u.x)), 60)) : u \in {AdmTwo(d, c, b, mu, t)}}) : t \in {AdmTwo(d, c, b, mu, s0)}}
        \cup (IF ev.stall = 1 THEN {} ELSE AdmFinal(d, ev.fin))      \* the documented stopping test includes an unchanged solution
        \cup C("basis", Len(ev.W) = 0 \/ (/\ ev.wx.it = ev.sts[2].it /\ VNear(ev.wx.r, ev.sts[2].r, 20)
                                            /\ VNear(ev.wx.x, [i \in 1..Len(ev.W) |-> RDiv(Dot(ev.W[i], ev.sts[2].x), IF Len(ev.W) = 4 THEN 2 ELSE 1)], 20)))
        \cup (IF ev.bp = <<>> THEN {} ELSE LET t == ev.bp[1] IN AdmSelf(d, c, b, t)
              \cup C("stopped", Stop(d, c, b, t, 50, -6)) \cup (IF Len(ev.bp) < 2 THEN {} ELSE C("going", ~Stop(d, c, b, ev.bp[2], 50, 6)))))
(* ---------------- interior point ---------------- *)
IpmVerdict(d, ev) ==
  LET S == ev.sts IN
  IF \E k \in 1..Len(S) : ~VFinite(S[k].x) THEN {"not-finite"} ELSE
  UNION {C("residual", VNear(S[k].r, VSub(d.b, Ap(d, S[k].x)), 12 + MaxAbs(S[k].x) \div 2000)) \cup C("counts", Counted(d, S[k])) : k \in 1..Len(S)}
  \cup C("limit", \A k \in 1..(Len(S) - 1) : S[k].it <= k + 1) \cup C("jit", ev.jit = 1)
  \cup With(S[Len(S)], LAMBDA s : With(LSBest(d, d.b, d.lam), LAMBDA best : C("optimal", s.it < 400 /\ LSObj(d, d.b, d.lam, s.x) <= best + RDiv(FQ(best, d.tol), 10) + 25 + best \div 2000)
     \cup C("bound", LSObj(d, d.b, d.lam, s.x) >= best - 25 - best \div 2000)))
(* ---------------- reweighted least squares ---------------- *)
FocVerdict(d, ev) ==
  LET S == ev.sts  v == NullV(d.M)  P(k) == IF k = 1 THEN Ones(3) ELSE S[k - 1].x IN
  IF \E k \in 1..Len(S) : ~VFinite(S[k].x) THEN {"not-finite"} ELSE
  UNION {C("feasible", VNear(MatVec(d.M, S[k].x), d.b, 30)) \cup C("residual", VNear(S[k].r, VSub(d.b, MatVec(d.M, S[k].x)), 12)) \cup C("residual-norm", Rel(S[k].r2, Sq(S[k].r), 300, 3))
         \cup C("counts", S[k].it = k)
         \cup C("support", /\ \A i \in 1..Len(S[k].I) : S[k].I[i] \in 1..3
                           /\ Cardinality({S[k].I[i] : i \in 1..Len(S[k].I)}) = Len(S[k].I)
                           /\ Len(S[k].xI) = Len(S[k].I) /\ \A i \in 1..Len(S[k].I) : S[k].xI[i] = S[k].x[S[k].I[i]]
                           /\ Sq([i \in 1..3 |-> IF \E j \in 1..Len(S[k].I) : S[k].I[j] = i THEN 0 ELSE S[k].x[i]]) <= (Sq(S[k].x) \div 98) + 2)
         \cup C("reweighted", \A i \in 1..3 : Abs(P(k)[i]) > 200 \/ Abs(S[k].x[i]) <= 250)
         \cup C("reweighted", (\A i \in 1..3 : Abs(P(k)[i]) > 1200) => VNear(S[k].x, FocStep(d.M, d.b, P(k), d.h), 60)) : k \in 1..Len(S)}
  \cup C("step", VNear(ev.one, S[1].x, 3))
(* ---------------- spectral projected gradient ---------------- *)
SpSelf(d, s) ==
  LET b == ZUp(d.b)  mx == ZMax(s.x) IN
  With(ZSq(s.r) \div 2, LAMBDA f :
   C("residual", ZNear(s.r, Res(d.M, d.b, s.x), 14 + mx \div 1000)) \cup C("gradient", ZNear(s.g, ZSub(ZUp([j \in 1..Len(s.x) |-> PZero]), ZMulH(d.M, s.r)), 14 + ZMax(s.r) \div 1000))
   \cup C("residual-norm", Rel(s.rn, ZNorm(s.r), 300, 8)) \cup C("objective", Rel(s.f, f, 300, 12))
   \cup C("gap", s.tc = 1 \/ With(ZGap(s.r, b, s.g, s.tau), LAMBDA gp : \E v \in {Abs(gp), PAbs(<<gp, ZIm(s.r, ZSub(s.r, b))>>)} : Rel(s.gap, QDiv(v, Max2(Q, f)), 200, 40 + s.tau \div 200)))
   \cup C("ball", (d.prob # "lasso" /\ s.it = 1) \/ ZL1(s.x) <= s.tau + 20) \cup C("counts", Counted(d, s)))
SpFollow(d, a, s) ==
  LET fm == MaxS(a.fp) IN
   C("counts", s.it = a.it + 1) \cup C("descent", (s.f <= fm + 8 + fm \div 1000) \/ (d.prob # "lasso" /\ s.tau < a.tau) \/ s.ls >= a.ls + 10)
   \cup C("history", d.mem = 1 \/ VNear(Tail(s.fp), SubSeq(a.fp, 1, d.mem - 1), 1))
   \cup (IF s.ls # a.ls \/ a.an > 100000 \/ ~(s.tau >= a.tau) THEN {} ELSE
         C("projected-step", ZBallProx(ZSub(a.x, ZScale(a.an, a.g)), a.tau, s.x, 25 + FQ(25, a.an) + ZMax(a.x) \div 500)))
   \cup With(ZSub(s.x, a.x), LAMBDA u : IF ZMax(u) < 500 THEN {} ELSE
         With(ZRe(u, ZSub(s.g, a.g)), LAMBDA c : IF c < 400 THEN {} ELSE C("spectral-step", Rel(s.an, QDiv(ZRe(u, u), c), 60, 30 + (FQ(QDiv(ZRe(u, u), c), 400000) \div Max2(1, ZMax(u)))))))
   \cup (IF d.prob = "lasso" THEN C("radius", s.tau = d.par) ELSE
         C("radius", IF s.tc = 0 THEN s.tau = a.tau ELSE s.tau < a.tau \/ Rel(s.tau, a.tau + QDiv(FQ(s.rn, s.rn - d.par), Max2(1, ZInf(s.g))), 100, 60)) \cup C("newton", s.nw = a.nw + s.tc))
SpFinal(d, s) ==
  LET b == ZUp(d.b) IN
  CASE d.prob = "lasso" -> C("optimal", s.rn <= 40 \/ ZGap(s.r, b, s.g, d.par) <= 60 + ZSq(s.r) \div 500)
    [] d.prob = "bpic" -> C("feasible", s.rn <= d.par + 40) \cup C("optimal", d.x0 = 1 \/ ZInf(s.g) <= 60 \/ s.it = 1 \/ ZL1(s.x) <= With(QDiv(ZRe(b, s.r) - FQ(d.par, s.rn), Max2(1, ZInf(s.g))), LAMBDA v : v + 120 + v \div 30))
    [] d.prob = "bp" -> C("feasible", s.rn <= 60) \cup
         (IF d.cx = 1 THEN {} ELSE With([M |-> [i \in 1..Len(d.M) |-> [j \in 1..Cols(d.M) |-> d.M[i][j][1]]], d |-> 1], LAMBDA p : C("optimal", Near(ZL1(s.x), BPBest(p, [i \in 1..2 |-> b[i][1]], Ones(Cols(p.M)), 0), 150))))
SpVerdict(d, ev) ==
  LET T == ev.sts IN
  IF \E k \in 1..Len(T) : ~(ZFin(T[k].x) /\ ZFin(T[k].r)) THEN {"not-finite"} ELSE
  UNION {SpSelf(d, T[k]) : k \in 1..Len(T)} \cup C("limit", \A k \in 1..(Len(T) - 1) : T[k].it <= k)
  \cup UNION {IF T[k + 1].it = T[k].it THEN C("stays", ZNear(T[k + 1].x, T[k].x, 0)) ELSE SpFollow(d, T[k], T[k + 1]) : k \in 1..(Len(T) - 2)}
  \cup C("start", T[1].it = 1 /\ IF d.prob = "lasso" THEN ZBallProx(ZUp(d.xx), d.par, T[1].x, 15) ELSE ZNear(T[1].x, ZUp(d.xx), 10))
  \cup (IF d.prob = "lasso" THEN {} ELSE C("first-radius", Rel(T[1].tau, Max2(0, ZL1(T[1].x) + QDiv(FQ(T[1].rn, T[1].rn - d.par), Max2(1, ZInf(T[1].g)))), 200, 60)))
  \cup SpFinal(d, T[Len(T)]) \cup C("jit", ev.jit = 1)
  \cup UNION {With(ZSq(s.r) \div 2, LAMBDA f : C("evaluation", /\ ZNear(s.r, Res(d.M, d.b, s.x), 20) /\ Rel(s.f, f, 300, 12)
            /\ ZNear(s.g, ZSub(ZUp([j \in 1..Len(s.x) |-> PZero]), ZMulH(d.M, s.r)), 14 + ZMax(s.r) \div 1000))) : s \in Range(ev.rgf)}
L1Verdict(p, ev) == IF ev.exc # "" THEN {"exception"} ELSE CASE ev.d.alg = "adm" -> AdmVerdict(ev.d, ev) [] ev.d.alg = "ipm" -> IpmVerdict(ev.d, ev) [] ev.d.alg = "foc" -> FocVerdict(ev.d, ev) [] ev.d.alg = "spg" -> SpVerdict(ev.d, ev)
                    [] ev.d.alg = "scd" -> C("feasible", VFinite(ev.x) /\ VNear(MatVec(ev.d.M, ev.x), VScale(Q, ev.d.b), 200))
=============================================================================
