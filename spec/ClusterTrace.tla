---------------------------- MODULE ClusterTrace ---------------------------
(* Recorded clustering runs.  Coordinates at scale KS, distances at 10 KS.     *)
EXTENDS Cluster, TraceBase
Small(M) == \A i \in 1..Len(M) : MaxAbs(M[i]) <= 9 * KS
LabelsOK(lab, n, k) == Len(lab) = n /\ \A i \in 1..n : lab[i] >= 0 /\ lab[i] < k
Dist(x, c) == ISqrt(100 * D2(x, c))          \* D2 <= 3*(12*840)^2 needs care: guarded by Small
DistC(x, c) == LET d == D2(x, c) IN IF d < 20000000 THEN Dist(x, c) ELSE 10 * ISqrt(d)
(* nearest up to rounding of the centroid to one unit of 1/840 *)
NearestOK(P, cen, lab) == \A i \in 1..Len(P) : \E b \in {Best(VScale(KS, P[i]), cen)} :
     D2(VScale(KS, P[i]), cen[lab[i] + 1]) <= b + 4 * ISqrt(b) + 16
MeanDist(P, cen, lab) == SumS([i \in 1..Len(P) |-> DistC(VScale(KS, P[i]), cen[lab[i] + 1])]) \div Len(P)
StateOK(d, s) ==
  IF Len(s.cen) # d.k \/ ~Small(s.cen) THEN {"centroid-shape"}
  ELSE IF ~LabelsOK(s.lab, d.n, d.k) THEN {"labels-range"}
  ELSE C("nearest", NearestOK(d.pts, s.cen, s.lab)) \cup C("distortion", Near(MeanDist(d.pts, s.cen, s.lab), s.dist, 24))
(* states with iteration limits 0, 1, 2, ... of one run, the fixed key *)
LloydVerdict(ev) ==
  LET d == ev.d  T == Len(ev.st)
      S(t) == ev.st[t]
      gapped(t) == ev.st[t].prev - ev.st[t].dist > d.th * 84     \* threshold th/100, scale 8400
      clear(t) == Abs(ev.st[t].prev - ev.st[t].dist - d.th * 84) > 2
  IN UNION {StateOK(d, S(t)) : t \in 1..T}
     \cup C("init-from-points", \E f \in [1..d.k -> 1..d.n] : (\A a, b \in 1..d.k : a < b => f[a] # f[b])
               /\ \A c \in 1..d.k : VNear(S(1).cen[c], VScale(KS, d.pts[f[c]]), 1))
     \cup C("init-count", S(1).it = 0)
     \cup C("mean-step", \A t \in 2..T : S(t).it = S(t - 1).it + 1 =>
              /\ MNear(S(t).cen, Means(d.pts, S(t - 1).lab, d.k), 1)
              /\ Near(S(t).prev, S(t - 1).dist, 1))
     \cup C("frozen", \A t \in 2..T : S(t).it = S(t - 1).it => S(t).cen = S(t - 1).cen /\ S(t).lab = S(t - 1).lab)
     \cup C("count", \A t \in 2..T : S(t).it \in {S(t - 1).it, S(t - 1).it + 1})
     \cup C("stop-rule", \A t \in 2..T :
              IF S(t - 1).it < t - 2 THEN S(t).it = S(t - 1).it
              ELSE t = 2 \/ clear(t - 1) => (S(t).it = t - 1) = (t = 2 \/ gapped(t - 1)))
     \cup C("descends", \A t \in 2..T : S(t).it = S(t - 1).it \/
              Cost(d.pts, Means(d.pts, S(t - 1).lab, d.k), S(t).lab) <= 100 + SumS([i \in 1..d.n |-> Best(VScale(KS, d.pts[i]), S(t - 1).cen)]) + 30 * KS)
     \cup C("jit-agrees", MNear(ev.plain.cen, S(T).cen, 1) /\ ev.plain.lab = S(T).lab /\ ev.plain.it = S(T).it)
RestartVerdict(ev) ==
  StateOK(ev.d, ev.sol)
   \cup C("least-distortion", \A i \in 1..Len(ev.runs) : ev.sol.dist <= ev.runs[i].dist + 1)
   \cup C("key-reproduces", MNear(ev.again.cen, ev.sol.cen, 1) /\ ev.again.lab = ev.sol.lab /\ ev.again.it = ev.sol.it)
   \cup C("key-listed", \E i \in 1..Len(ev.runs) : MNear(ev.runs[i].cen, ev.sol.cen, 1) /\ ev.runs[i].lab = ev.sol.lab)
AssignVerdict(ev) ==
  IF ~LabelsOK(ev.lab, ev.d.n, ev.d.k) \/ ~LabelsOK(ev.one, ev.d.n, ev.d.k) THEN {"labels-range"}
  ELSE C("nearest", NearestOK(ev.d.pts, ev.cen, ev.lab)) \cup C("nearest-one", NearestOK(ev.d.pts, ev.cen, ev.one))
   \cup C("distances", Len(ev.dist) = ev.d.n /\ \A i \in 1..ev.d.n : Near(ev.dist[i], DistC(VScale(KS, ev.d.pts[i]), ev.cen[ev.lab[i] + 1]), 12))
CentreVerdict(ev) ==
   C("means", MNear(ev.cen, Means(ev.d.pts, ev.d.lab, ev.d.k), 1))
   \cup C("counts", ev.counts = [c \in 1..ev.d.k |-> Max2(1, Cardinality(Members(ev.d.lab, c - 1)))])
MatchVerdict(ev) ==
  LET d == ev.d  m == MaxAgree(d.tl, d.pl) IN
  UNION {LET r == ev.res[i] IN
      C("renaming", Renames(d.pl, r.ml)) \cup C("best", Agree(d.tl, r.ml) = m)
      \cup C("missed", r.missed = d.n - m)
      \cup C("error", Near(d.n * r.err, (d.n - m) * 10000, 10) /\ Near(d.n * r.perc, (d.n - m) * 10000, 10)) : i \in 1..Len(ev.res)}
SizesVerdict(ev) ==
  LET z == ev.d.sz  k == Len(z) IN
   C("labels", ev.lab = LabelsOf(z)) \cup C("sizes", ev.sz = z /\ ev.szj = z)
   \cup C("starts", ev.st = [i \in 1..k |-> Prefix(z, i - 1)]) \cup C("ends", ev.en = [i \in 1..k |-> Prefix(z, i)])
Q == 10000
GraphVerdict(ev) ==
  LET d == ev.d  n == Len(d.lab) IN
   C("laplacian", MNear(ev.lap, [i \in 1..n |-> VScale(Q, Lap(d.W)[i])], 2))
   \cup C("random-walk-laplacian", \A i, j \in 1..n : Near(Degree(d.W, i) * ev.rw[i][j], Q * Lap(d.W)[i][j], 8 * Degree(d.W, i)))
   \cup C("symmetric-weights", \A i, j \in 1..n :       \* w_ij / sqrt(d_i d_j)
            /\ (d.W[i][j] = 0) = (ev.sym[i][j] = 0)
            /\ Abs(ev.sym[i][j]) <= 2 * Q
            /\ (d.W[i][j] # 0 => Near(ev.sym[i][j], ISqrt((d.W[i][j] * d.W[i][j] * 100000000) \div (Degree(d.W, i) * Degree(d.W, j))), 3)))
   \cup C("sparse-symmetric-weights", MNear(ev.spsym, ev.sym, 2))
   \cup C("components", \A i \in 1..Len(ev.parts) : LabelsOK(ev.parts[i], n, d.k) /\ SamePartition(d.lab, ev.parts[i]))
   \cup C("cluster-count", \A i \in 1..Len(ev.ks) : ev.ks[i] = d.k)
FastVerdict(ev) ==
  LET d == ev.d  n == Len(d.lab) IN
   C("components", \A i \in 1..Len(ev.parts) : LabelsOK(ev.parts[i], n, d.k) /\ SamePartition(d.lab, ev.parts[i]))
   \cup C("cluster-count", \A i \in 1..Len(ev.ks) : ev.ks[i] = d.k)
   \cup C("leading-values", \A i \in 1..Len(ev.sv) : Len(ev.sv[i]) >= d.k /\ \A j \in 1..d.k : Near(ev.sv[i][j], Q, 20))   \* one unit singular value per component
ClusterVerdict(p, ev) ==
  IF ev.exc # "" THEN {"exception"}
  ELSE CASE ev.d.kind = "lloyd" -> LloydVerdict(ev) [] ev.d.kind = "restart" -> RestartVerdict(ev)
         [] ev.d.kind = "assign" -> AssignVerdict(ev) [] ev.d.kind = "centre" -> CentreVerdict(ev)
         [] ev.d.kind = "match" -> MatchVerdict(ev) [] ev.d.kind = "sizes" -> SizesVerdict(ev)
         [] ev.d.kind = "graph" -> GraphVerdict(ev) [] ev.d.kind = "fast" -> FastVerdict(ev)
=============================================================================
