---------------------------- MODULE KrylovTrace -----------------------------
EXTENDS Krylov, TraceBase
XTol(z) == 45 + MaxAbs(z) \div 800
Rel(a, b, tol) == Abs(a - b) <= tol + Max2(Abs(a), Abs(b)) \div 300
RowMax(A) == MaxS([i \in 1..Len(A) |-> SumS([j \in 1..Len(A[i]) |-> Abs(A[i][j])])])
(* ---- conjugate gradients: ev.st[t] is the run limited to lim(t) = base + t - 1 iterations ---- *)
CgState(d, S, g, base, s) ==
  IF ~(VFinite(s.x) /\ VFinite(s.r) /\ VFinite(s.p) /\ s.gamma < Lim /\ s.gamma > -Lim) THEN {"not-finite"} ELSE
  LET k == s.it - base  dx == VSub(s.x, KSc(d.x0))  ref == Iter(S, g, k)  rm == RowMax(d.A)
      z == IF d.kind = "pcg" THEN MatVec(d.M, s.r) ELSE s.r  e == KDot(s.r, z) IN
  IF k < 0 THEN {"count"} ELSE
   C("iterate", VNear(dx, ref, XTol(ref)))
   \cup C("residual", VNear(s.r, VSub(KSc(d.b), MatVec(d.A, s.x)), 3 * rm + 6))
   \cup C("energy", Rel(s.gamma, e, 60))
   \cup C("direction", IF k >= KDim(S) THEN KNorm(s.p) <= 12 * XTol(ref) * rm
        ELSE LET w == S.W[k + 1]  c == KD(KDot(s.p, w), KDot(w, w)) IN
             VNear(s.p, [i \in 1..Len(w) |-> KM(c, w[i])], 60 + MaxAbs(s.p) \div 150) /\ Rel(KDot(s.p, s.r), e, 120))
CgVerdict(ev) ==
  LET d == ev.d  base == IF d.kind = "pcg" THEN 1 ELSE 0
      thr == Max2(FMul(d.tol, KNorm(KSc(d.b)), 10000), d.atol * 3) IN
  UNION {UNION {
   LET T == Len(ev.st)  st(t) == ev.st[t]  limit(t) == base + t - 1
       f == UNION {CgState(d, S, g, base, st(t)) : t \in 1..T} \cup UNION {CgState(d, S, g, base, ev.alt[t]) : t \in 1..Len(ev.alt)} IN
   IF "not-finite" \in f THEN f ELSE f
   \cup C("limit", \A t \in 1..T : st(t).it <= limit(t))
   \cup C("stop-rule", \A t \in 2..T :
        IF st(t - 1).it < limit(t - 1) THEN st(t).it = st(t - 1).it
        ELSE /\ KNorm(st(t - 1).r) > thr + 30 + thr \div 500 => st(t).it = limit(t)
             /\ KNorm(st(t - 1).r) < thr - 30 - thr \div 500 => st(t).it = st(t - 1).it)
   \cup C("other-forms-agree", \A t \in 1..Len(ev.alt) : ev.alt[t].it = st(T).it)
   \cup C("default-limit", \A t \in 1..Len(ev.dft) : ev.dft[t].it = st(T - 1).it /\ VNear(ev.dft[t].x, st(T - 1).x, 60))
   : S \in {Krylov(d.A, IF d.kind = "pcg" THEN d.M ELSE Ident(Len(d.A)), g)}} : g \in {VSub(d.b, MatVec(d.A, d.x0))}}
(* ---- LSQR: ev.st[t] is the run limited to t iterations (the first one evaluates the start) ---- *)
Hyp(a, b) == KNorm(<<a, b>>)
LsState(d, E, N, S, g, s) ==
  IF ~(VFinite(s.x) /\ VFinite(<<s.rn, s.atr, s.xn, s.an, s.ac>>)) THEN {"not-finite"} ELSE
  LET k == s.it - 1  x0 == d.x0 \o d.xi  dx == VSub(s.x, KSc(x0))  ref == Iter(S, g, k)
      r == VSub(KSc(d.b \o d.bi), MatVec(E, s.x))  rm == RowMax(E)
      at == VSub(MatTVec(E, r), VScale(d.damp * d.damp, dx)) IN
  IF k < 0 THEN {"count"} ELSE
   C("iterate", VNear(dx, ref, XTol(ref)))
   \cup C("residual-norm", Rel(s.rn, Hyp(KNorm(r), d.damp * KNorm(dx)), 60))
   \cup C("gradient-norm", Rel(s.atr, KNorm(at), 20 * rm * rm + 100))
   \cup C("solution-norm", Rel(s.xn, IF k = 0 THEN KNorm(KSc(x0)) ELSE KNorm(dx), 60))
   \cup C("operations", s.nt = s.it /\ s.ntr = s.it)
   \cup C("operator-norm", IF k = 0 THEN s.an = 0 ELSE k <= KDim(S) =>
         Rel(KM(s.an, s.an), SumS([i \in 1..k |-> KDot(S.V[i], S.NW0[i])]), 300))
   \cup C("condition", IF k = 0 THEN s.ac = KQ ELSE k <= KDim(S) =>
         Rel(KM(s.ac, s.ac), KM(KM(s.an, s.an), DirSqr(S, k)), 400 + s.ac \div 100))
Stops(d, bn, at0, s) == \* which way the documented criteria decide: "stop", "go", or "edge"
  LET rt == FMul(d.cr.btol, bn, 10000) + FMul(d.cr.atol, KM(s.an, s.xn), 10000)
      ar == FMul(d.cr.atol, at0, 10000) IN
  IF bn = 0 \/ at0 = 0 \/ s.rn <= rt - 30 - rt \div 200 \/ s.atr <= ar - 60 - ar \div 200 \/ (d.cr.con > 0 /\ s.ac > d.cr.con * KQ + 400) THEN "stop"
  ELSE IF s.rn > rt + 60 + rt \div 200 /\ s.atr > ar + 400 + ar \div 200 /\ (d.cr.con = 0 \/ s.ac < d.cr.con * KQ - 400) THEN "go" ELSE "edge"
LsVerdict(ev) ==
  LET d == ev.d  T == Len(ev.st)  st(t) == ev.st[t] IN
  UNION {UNION {UNION {UNION {
   LET f == UNION {LsState(d, E, N, S, g, st(t)) : t \in 1..T} \cup UNION {LsState(d, E, N, S, g, ev.alt[t]) : t \in 1..Len(ev.alt)}
       r0 == VSub(d.b \o d.bi, MatVec(E, d.x0 \o d.xi))  bn == KNorm(KSc(r0))  a0 == KNorm(KSc(g)) IN
   IF "not-finite" \in f THEN f ELSE f
   \cup C("limit", \A t \in 1..T : st(t).it <= t)
   \cup C("stop-rule", \A t \in 2..T :
        IF st(t - 1).it < t - 1 THEN st(t).it = st(t - 1).it
        ELSE LET w == Stops(d, bn, a0, st(t - 1)) IN /\ w = "stop" => st(t).it = st(t - 1).it
                                                     /\ w = "go" => st(t).it = t)
   \cup C("other-forms-agree", \A t \in 1..Len(ev.alt) : ev.alt[t].it = st(T).it)
   : S \in {[V |-> S0.V, W |-> S0.W, NW |-> S0.NW, NW0 |-> [i \in 1..Len(S0.V) |-> MatVec(N, S0.V[i])]] : S0 \in {Krylov(N, Ident(Len(N)), g)}}}
   : g \in {MatTVec(E, VSub(d.b \o d.bi, MatVec(E, d.x0 \o d.xi)))}} : N \in {NormalMat(E, d.damp)}} : E \in {Embed(d.A, d.Ai)}}
KrylovVerdict(p, ev) ==
  IF ev.exc # "" THEN {"exception"} ELSE IF ev.d.kind = "lsqr" THEN LsVerdict(ev) ELSE CgVerdict(ev)
=============================================================================
