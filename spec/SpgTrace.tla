------------------------------ MODULE SpgTrace ------------------------------
EXTENDS Spg, TraceBase
(* tolerance for function values computed from a rounded point *)
FTol(g) == 12 + (SumS([i \in 1..Len(g) |-> Abs(g[i])]) \div 8000)
GTol(p, x) == IF p.f = "quad" THEN 80 ELSE 12 + 4 * (FQ(MaxAbs(x), MaxAbs(x)) \div Q)
Same(u, v) == VNear(u, v, 1 + MaxAbs(u) \div 200000)
SameF(a, b) == Near(a, b, 1 + Abs(a) \div 200000)
SelfOK(d, s) ==
   C("feasible", Inside(d.c, s.x, 6)) \cup C("gradient", VNear(s.g, Grad(d.f, s.x), GTol(d.f, s.x)))
   \cup C("value", Near(s.h[1], Val(d.f, s.x), FTol(s.g))) \cup C("memory", Len(s.h) = d.o.mem)
(* x moved along dd by a fraction reached by the search *)
Moved(d, from, g, dd, dl, to, hmax, h1, n, tol) ==
  LET len == QDot(dd, dd)  mv == VSub(to, from)  sl == FTol(g) + tol  sg == QDot(g, mv)  lt == ((20 * tol) \div Q) + ((3 * Abs(sg)) \div Q) + (SumS([i \in 1..Len(g) |-> Abs(g[i])]) \div Q) + 3 IN
   \* sufficient decrease: alpha * slope is the slope along the move itself
   C("sufficient-decrease", Val(d.f, to) <= hmax + FQ(d.o.gam, sg) + FTol(g) + lt)
   \cup (IF tol > 400 \/ len < 4 * tol THEN {}          \* direction too short to be resolved
         ELSE LET r == Search(d.f, from, dd, hmax, h1, d.o.gam, dl, n - 1) IN
            C("full-step", n = 1 => VNear(mv, dd, tol))
            \* each rejected length really was too long, and the accepted one follows the interpolation rule
            \cup (IF n = 1 THEN {} ELSE
                  C("rejected", Trial(d.f, from, dd, Q) > hmax + FQ(d.o.gam, dl) - 4 * sl - (Abs(dl) \div 200))
                  \cup C("backtracking", n > 4 \/ (r.ok /\ r.n < n) \/ VNear(mv, Sc1(r.a, dd), tol + 40 + MaxAbs(dd) \div 100))))
First(d, s) ==
  LET x0 == s.xp  g == s.gp  f == Val(d.f, x0)  dd == VSub(Proj(d.c, VSub(x0, g)), x0)  dl == QDot(g, dd)
      n1 == SumS([i \in 1..Len(g) |-> Abs(g[i])])  cut == n1 > Q
      dt == IF cut THEN [i \in 1..Len(dd) |-> QDiv(dd[i], n1)] ELSE dd IN
   C("start", VNear(x0, Proj(d.c, VScale(Q, d.x0)), 8) /\ VNear(g, Grad(d.f, x0), GTol(d.f, x0))) \cup C("slope", Near(s.delta, dl, 20 + 6 * FTol(g) + Abs(dl) \div 1000))
   \cup C("history", \A i \in 2..Len(s.h) : Near(s.h[i], f, FTol(g)))
   \cup C("counts", s.it = 1 /\ s.calls >= 2 /\ s.gcalls = 2)
   \cup Moved(d, x0, g, dt, IF cut THEN QDiv(dl, n1) ELSE dl, s.x, f, f, s.calls - 1, 10 + MaxAbs(dt) \div 300)
Follow(d, a, s) ==
  LET lam == Spectral(a.sn, a.yn)  z == VSub(a.x, Sc1(lam, a.g))
      dd == VSub(Proj(d.c, z), a.x)  dl == QDot(a.g, dd)  tol == 10 + MaxAbs(dd) \div 300 + (IF a.tiny = 1 THEN 100000 ELSE 0) IN
   C("chain", Same(s.xp, a.x) /\ Same(s.gp, a.g))
   \cup C("history", Len(s.h) = Len(a.h) /\ \A i \in 2..Len(s.h) : SameF(s.h[i], a.h[i - 1]))
   \cup C("counts", s.it = a.it + 1 /\ s.calls > a.calls /\ s.calls <= a.calls + 50 /\ s.gcalls = a.gcalls + 1)
   \cup C("descent-direction", s.delta <= 0)
   \cup C("slope", tol > 400 \/ Near(s.delta, dl, 40 + 2 * FTol(a.g) + Abs(dl) \div 100))
   \cup Moved(d, a.x, a.g, dd, dl, s.x, MaxS(a.h), a.h[1], s.calls - a.calls, tol)
(* why a run may end *)
Flat(d, s) == OptRes(d.c, s.x, s.g) <= d.o.otol + 4
Steep(d, s) == OptRes(d.c, s.x, s.g) >= d.o.otol - 4
Stopped(d, s) == Flat(d, s) \/ s.delta >= -d.o.ptol - 1 \/ s.calls >= d.o.calls
Going(d, s) == Steep(d, s) /\ s.delta <= -d.o.ptol + 1 /\ s.calls < d.o.calls
SpgVerdict(p, ev) ==
  IF ev.exc # "" THEN {"exception"} ELSE
  LET d == ev.d  T == ev.sts  n == Len(T) IN
  IF \E k \in 1..n : ~(VFinite(T[k].x) /\ VFinite(T[k].g) /\ VFinite(T[k].h)) THEN {"not-finite"} ELSE
  UNION {SelfOK(d, T[k]) : k \in 1..n}
  \cup First(d, T[1])
  \cup UNION {IF T[k].it = T[k - 1].it THEN C("stays", Same(T[k].x, T[k - 1].x)) \cup C("stopped", Stopped(d, T[k]))
              ELSE Follow(d, T[k - 1], T[k]) \cup C("going", Going(d, T[k - 1])) : k \in 2..n}
  \cup C("limit", \A k \in 1..n : T[k].it <= k)
  \cup C("final", Inside(d.c, ev.last.x, 6) /\ (Flat(d, ev.last) \/ ev.last.delta >= -d.o.ptol - 1 \/ ev.last.calls >= d.o.calls \/ ev.last.it = 300))
  \cup C("jit", ev.jit = 1)
=============================================================================
