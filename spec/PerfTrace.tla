------------------------------ MODULE PerfTrace -----------------------------
(* Recorded reports: vectors in sixteenths (scale 16), norms at scale 1600.    *)
EXTENDS Perf, TraceBase
NormNear(nr, sq, tol) == nr >= 0 /\ nr < 40000 /\ Near(nr, ISqrt(sq * 10000), tol)     \* sq in 1/256 units: sqrt(sq)/16
S1(s) == {s[i] + 1 : i \in 1..Len(s)}
Asc(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
Inside(s, n) == \A i \in 1..Len(s) : s[i] >= 0 /\ s[i] < n
ReportVerdict(ev) ==
  LET d == ev.d  x == d.x  xh == VAdd(d.x, d.e)  h == VSub(x, xh)  n == Len(x)
      y == VAdd(MatVec(d.Phi, x), d.nz)  r == VSub(y, MatVec(d.Phi, xh))  K == Cardinality(Supp(x))
      R0 == S1(ev.R0)  ov == Supp(x) \cap R0
      hc == [i \in 1..n |-> IF x[i] # 0 THEN 0 ELSE h[i]]
  IN IF ~Inside(ev.R0, n) \/ ~Inside(ev.T0, n) \/ ~Inside(ev.T1, n) \/ ~Inside(ev.overlap, n) THEN {"indices"} ELSE
     C("dims", ev.M = Len(d.Phi) /\ ev.N = n /\ ev.K = K)
     \cup C("support", S1(ev.T0) = Supp(x) /\ Asc(ev.T0) /\ S1(ev.T0C) = (1..n) \ Supp(x))
     \cup C("error-vector", ev.h = h) \cup C("residual-vector", ev.r = r)
     \cup C("norms", NormNear(ev.xn, SqS(x), 2) /\ NormNear(ev.yn, SqS(y), 2) /\ NormNear(ev.xhn, SqS(xh), 2)
                  /\ NormNear(ev.hn, SqS(h), 2) /\ NormNear(ev.rn, SqS(r), 2))
     \cup C("snr", SnrNear(ev.snr, SqS(x), SqS(h), 6) /\ SnrNear(ev.msnr, SqS(y), SqS(r), 6))
     \cup C("dynamic-range", Near(ev.xdr, DeciBel(MaxA(x) * MaxA(x), MinNZ(x) * MinNZ(x)), 6)
            /\ (SqS(xh) = 0 \/ Near(ev.xhdr, DeciBel(MaxA(xh) * MaxA(xh), MinNZ(xh) * MinNZ(xh)), 6))
            /\ (MinA(y) = 0 \/ Near(ev.ydr, DeciBel(MaxA(y) * MaxA(y), MinA(y) * MinA(y)), 6)))
     \cup C("largest", Largest(xh, R0, K) /\ Asc(ev.R0))
     \cup C("overlap", S1(ev.overlap) = ov /\ Len(ev.overlap) = Cardinality(ov) /\ ev.correct = Cardinality(ov))
     \cup C("ratio", Near(ev.ratio * K, 10000 * Cardinality(ov), K) /\ ev.perfect = (Cardinality(ov) = K))
     \cup C("success", ev.success = Success(x, xh, Cardinality(ov)))
     \cup C("remainder", /\ (2 * K <= n => Largest(hc, S1(ev.T1), Min2(K, n)) )
                         /\ ev.hT0 = [i \in 1..K |-> h[ev.T0[i] + 1]] /\ ev.hT0C = hc
                         /\ ev.hT1 = [i \in 1..Len(ev.T1) |-> h[ev.T1[i] + 1]]
                         /\ S1(ev.TRest) = ((1..n) \ Supp(x)) \ S1(ev.T1)
                         /\ ev.hTRest = [i \in 1..Len(ev.TRest) |-> h[ev.TRest[i] + 1]])
     \cup C("norm-ratio", SqS(r) = 0 \/ SqS(h) * 100 > SqS(r) * 10000 \/ ev.hbr < 0 \/ ev.hbr > 40000 \/ Near(ev.hbr, ISqrt((SqS(h) * 10000) \div SqS(r)), 3 + ev.hbr \div 40))
     \cup C("norm-ratio-finite", SqS(r) = 0 \/ ev.hbr >= 0)
TrialsVerdict(ev) ==
  LET d == ev.d  T == d.nd * d.ns  R == Len(ev.rows)  nb == Cardinality({i \in 1..Len(d.bad) : d.bad[i] <= T}) IN
     C("row-per-level", R = Len(d.ks) * d.solvers /\ ev.csv = R)
     \cup (IF R # Len(d.ks) * d.solvers THEN {} ELSE UNION {LET row == ev.rows[i]  q == ((i - 1) \div Len(d.ks)) + 1 IN
       C("row-identity", row.k = d.ks[((i - 1) % Len(d.ks)) + 1] /\ row.method = q /\ row.m = 24 /\ row.n = 32)
       \cup C("trial-count", row.trials = T /\ row.solves = T)
       \cup C("success-count", row.successes = T - nb /\ row.failures = nb)
       \cup C("success-rate", Near(row.rate * T, (T - nb) * 10000, T))
       \cup C("iterations", row.min = MinS(row.its) /\ row.max = MaxS(row.its) /\ Near(row.mean * T, SumS(row.its) * 10000, T))
       \cup C("fresh-signals", row.distinct = T)
       \cup C("sparsity", \A j \in 1..Len(row.nnz) : row.nnz[j] = row.k)
       \cup C("dictionaries", row.dicts = d.nd) : i \in 1..R})
TrackVerdict(ev) ==
  LET d == ev.d  n == Len(d.calls) IN
     C("record-per-call", ev.iters = d.calls /\ Len(ev.xn) = n /\ Len(ev.rn) = n)
     \cup C("shown", ev.shown = d.shown) \cup C("converged-once", ev.conv = <<d.calls[n]>>)
     \cup C("x-norms", \A i \in 1..Len(ev.xn) : NormNear(ev.xn[i], SqS(ev.xs[i]), 2))
     \cup C("r-norms", \A i \in 1..Len(ev.rn) : NormNear(ev.rn[i], SqS(ev.rs[i]), 2))
     \cup C("snrs", IF d.snr THEN Len(ev.snrs) = n /\ \A i \in 1..n :
                 LET e == SqS(VSub(ev.x0, ev.xs[i])) IN e = 0 \/ Near(ev.snrs[i], DeciBel(SqS(ev.x0), e), 6)
               ELSE Len(ev.snrs) = 0)
     \cup C("norm-tracker", ev.nshown = d.calls /\ ev.nconv = <<d.calls[n]>>)
     \cup C("print-tracker", ev.pconv = <<d.calls[n]>> /\ ev.plines >= n) \cup C("noop-silent", ev.noop = 0)
(* a solver calls its tracker once per state from the initial one, in order, "more" until the last *)
SolverVerdict(ev) ==
  LET n == Len(ev.its) IN
     C("called", n >= 1) \cup C("in-order", n >= 1 => ev.its[1] \in {0, 1} /\ \A i \in 1..n : ev.its[i] = ev.its[1] + i - 1)
     \cup C("more-until-last", \A i \in 1..n : ev.more[i] = (i < n))
     \cup C("last-is-result", n >= 1 => ev.its[n] = ev.result)
PerfVerdict(p, ev) ==
  IF ev.exc # "" THEN {"exception"}
  ELSE CASE ev.d.kind = "report" -> ReportVerdict(ev) [] ev.d.kind = "trials" -> TrialsVerdict(ev)
         [] ev.d.kind = "track" -> TrackVerdict(ev) [] ev.d.kind = "solver" -> SolverVerdict(ev)
=============================================================================
