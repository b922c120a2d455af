------------------------------ MODULE ProbTrace -----------------------------
EXTENDS Prob, TraceBase
Pad(v) == v
NearC(a, b, tol) == VNear(a.re, b.re, tol) /\ VNear(a.im, b.im, tol)
Tol(v) == 4 + MaxAbs(v.re) \div 5000
NZ(x, lo, hi) == Cardinality({i \in lo..hi : x.re[i] # 0 \/ x.im[i] # 0})
Common(ev) ==
   C("measurements", NearC(ev.b, ev.Ax, Tol(ev.b))) \cup C("sensing", NearC(ev.b, ev.PhiPsix, Tol(ev.b)))
   \cup C("signal", ev.hasy = 1 => (NearC(ev.y, ev.Psix, Tol(ev.y)) /\ NearC(ev.b, ev.Phiy, Tol(ev.b))))
   \cup C("reconstruct", NearC(ev.Psix, ev.rec, Tol(ev.Psix)))
   \cup C("adjoint", NearC(ev.At, ev.PsitPhit, Tol(ev.At)))
   \cup C("name", ev.name = 1) \cup C("pure", ev.pure = 1) \cup C("figures", ev.figs = 1) \cup C("analysis", ev.ratio = 1000)
Shapes(ev) == LET d == ev.d  n == IF d.name \in {"spikes", "cspikes", "gspikes"} THEN RoundScale(d.n, d.scale) ELSE d.n  m == IF d.name \in {"spikes", "cspikes", "gspikes"} THEN RoundScale(d.m, d.scale) ELSE d.m IN
   C("shapes", /\ ev.Psi[1] = n /\ ev.Psi[2] = DictCols(d.name, n, d) /\ ev.Phi[2] = n /\ ev.Phi[1] = Rows(d.name, n, m)
               /\ ev.A = <<ev.Phi[1], ev.Psi[2]>> /\ Len(ev.b.re) = ev.A[1] /\ Len(ev.x.re) = ev.A[2] /\ (ev.hasy = 1 => Len(ev.y.re) = n))
Content(ev) == LET d == ev.d  n == d.n  b == ev.b.re  x == ev.x  L == Len(ev.x.re) IN
  CASE d.name = "heavisine" -> C("signal-content", VNear(b, HeaviSine(n), 8) /\ NZ(x, 1, n) = 2)
    [] d.name \in {"haar", "heaviblocks", "nheaviblocks"} -> C("signal-content", VNear(b, Blocks(n), 4))
    [] d.name \in {"cosspikes", "sinspikes", "cosgauss"} -> C("sparsity", NZ(x, 1, n) = d.k /\ NZ(x, n + 1, 2 * n) = d.c) \cup C("complex", d.name = "sinspikes" => ((\E i \in 1..n : x.im[i] # 0) /\ \E i \in (n + 1)..L : x.im[i] # 0))
    [] d.name = "poly" -> C("pieces", Cardinality({i \in 1..(n - 4) : ~Near(D4(ev.y.re, i), 0, 24 + MaxAbs(ev.y.re) \div 20000)}) <= 4 * (d.p - 1)) \cup C("not-zero", \E i \in 1..n : ev.y.re[i] # 0)
    [] d.name \in {"spikes", "cspikes", "gspikes"} ->
         LET k == RoundScale(d.k, d.scale) IN
          C("sparsity", NZ(x, 1, L) = k)
          \cup C("values", d.name = "spikes" => \A i \in 1..L : Abs(x.re[i]) \in {0, PS} /\ x.im[i] = 0)
          \cup C("values", d.name = "cspikes" => \A i \in 1..L : (x.re[i] = 0 /\ x.im[i] = 0) \/ (Abs(x.re[i]) = PS /\ Abs(x.im[i]) = PS))
          \cup C("values", (d.name = "gspikes" /\ k > 2) => \E i \in 1..L : Abs(x.re[i]) \notin {0, PS})
MixVerdict(ev) == LET M == ev.mixing IN
   C("shapes", ev.by[1] = <<ev.d.n, 2>> /\ ev.by[2] = <<ev.d.n, 2>>)
   \* each observed channel is the mixture of the two sources, sample by sample (sources are integers)
   \cup C("mixture", \A t \in 1..Len(ev.bs) : \A c \in 1..2 : Near(ev.bs[t][c], M[c][1] * ev.ys[t][1] + M[c][2] * ev.ys[t][2], 4))
   \cup C("sources", \A t \in 1..Len(ev.ys) : ev.ys[t] = ev.src[t])
   \cup C("composition", MNear(ev.Az, ev.PhiPsiz, 6)) \cup C("adjoint", MNear(ev.At, ev.PsitPhit, 6)) \cup C("reconstruct", MNear(ev.rec, ev.Psiz, 6)) \cup C("name", ev.name = 1) \cup C("figures", ev.figs = 1)
ProbVerdict(p, ev) == IF ev.exc # "" THEN {"exception"} ELSE IF ev.d.name = "mix" THEN MixVerdict(ev) ELSE Shapes(ev) \cup Common(ev) \cup Content(ev)
=============================================================================
