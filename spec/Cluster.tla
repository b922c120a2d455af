------------------------------ MODULE Cluster ------------------------------
(* Clustering: Lloyd's iteration, label bookkeeping, label matching, spectral  *)
(* clustering of graphs.  Points are small integer vectors; centroids are held  *)
(* at scale KS, a common multiple of every possible cluster size up to 8, so    *)
(* means are exact integers.                                                    *)
EXTENDS Lin, FiniteSetsExt
KS == 840
Pts(P) == [i \in 1..Len(P) |-> VScale(KS, P[i])]
D2(u, v) == SumS([i \in 1..Len(u) |-> (u[i] - v[i]) * (u[i] - v[i])])
Members(lab, c) == {i \in 1..Len(lab) : lab[i] = c}
(* labels are 0..k-1, as the code reports them; centroid c is entry c+1 *)
Means(P, lab, k) ==        \* an empty cluster: zero sum over a count clipped to one
  TLCEval([c \in 1..k |-> LET m == Members(lab, c - 1)  q == Max2(1, Cardinality(m)) IN
     [a \in 1..Len(P[1]) |-> (KS * MapThenSumSet(LAMBDA i : P[i][a], m)) \div q]])
Best(x, cen) == Min({D2(x, cen[c]) : c \in 1..Len(cen)})
NearestSet(x, cen) == {c - 1 : c \in {d \in 1..Len(cen) : D2(x, cen[d]) = Best(x, cen)}}
Cost(P, cen, lab) == SumS([i \in 1..Len(P) |-> D2(VScale(KS, P[i]), cen[lab[i] + 1])])
(* ------------------------------------------------------------ label matching *)
Count(tl, pl, a, b) == Cardinality({i \in 1..Len(tl) : tl[i] = a /\ pl[i] = b})
Vals(s) == {s[i] : i \in 1..Len(s)}
(* the relabellings: injections between the two label sets, from the smaller to the larger *)
Inj(S, T) == {f \in [S -> T] : \A a, b \in S : f[a] = f[b] => a = b}
MaxAgree(tl, pl) ==
  LET S == Vals(tl)  T == Vals(pl) IN
  IF Cardinality(S) <= Cardinality(T)
  THEN Max({MapThenSumSet(LAMBDA a : Count(tl, pl, a, f[a]), S) : f \in Inj(S, T)})
  ELSE Max({MapThenSumSet(LAMBDA b : Count(tl, pl, g[b], b), T) : g \in Inj(T, S)})
Agree(tl, ml) == Cardinality({i \in 1..Len(tl) : tl[i] = ml[i]})
(* ml renames the labels of pl, one to one *)
Renames(pl, ml) == Len(ml) = Len(pl) /\ \A i, j \in 1..Len(pl) : (pl[i] = pl[j]) = (ml[i] = ml[j])
(* ------------------------------------------------------------------- sizes *)
Prefix(sz, i) == SumS(SubSeq(sz, 1, i))
LabelsOf(sz) == FoldLeft(LAMBDA acc, i : acc \o [j \in 1..sz[i] |-> i - 1], <<>>, [i \in 1..Len(sz) |-> i])
SizesOf(lab, k) == [c \in 1..k |-> Cardinality(Members(lab, c - 1))]
(* ------------------------------------------------------------------- graphs *)
Degree(W, i) == SumS([j \in 1..Len(W) |-> W[j][i]])
Lap(W) == [i \in 1..Len(W) |-> [j \in 1..Len(W) |-> (IF i = j THEN Degree(W, i) ELSE 0) - W[i][j]]]
SamePartition(a, b) == Renames(a, b)
=============================================================================
