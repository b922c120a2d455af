---------------------------- MODULE ClusterGen -----------------------------
EXTENDS Cluster, Json
CONSTANTS Deep, Emit
Hash(a, b, c) == ((a * 73 + b * 151 + c * 29 + (a * b) * 7 + (b * c) * 13) % 97)
Cloud(n, d, s) == [i \in 1..n |-> [a \in 1..d |-> (Hash(i, a + 3 * s, s) % 8) - 3]]
Shapes == {<<3, 2, 3>>, <<4, 1, 2>>, <<5, 2, 2>>, <<6, 2, 3>>, <<8, 2, 3>>, <<7, 3, 4>>} \cup (IF Deep THEN {<<8, 1, 2>>, <<6, 1, 4>>, <<8, 3, 2>>} ELSE {})
Lloyd == {[kind |-> "lloyd", n |-> s[1], d |-> s[2], k |-> s[3], pts |-> Cloud(s[1], s[2], q), seed |-> q, th |-> t] :
            s \in Shapes, q \in 1..(IF Deep THEN 12 ELSE 4), t \in {0, 30}}
   (* exhaustive: every multiset of four points on a line *)
   \cup {[kind |-> "lloyd", n |-> 4, d |-> 1, k |-> 2, pts |-> << <<a>>, <<b>>, <<c>>, <<e>> >>, seed |-> 1, th |-> 0] :
            a \in {0}, b \in 0..(IF Deep THEN 4 ELSE 2), c \in 1..4, e \in 2..6}
Restart == {[kind |-> "restart", n |-> s[1], d |-> s[2], k |-> s[3], pts |-> Cloud(s[1], s[2], q), seed |-> q, th |-> 0] :
            s \in {<<6, 2, 3>>, <<8, 2, 3>>, <<7, 3, 4>>}, q \in 5..(IF Deep THEN 14 ELSE 7)}
(* one half-step each, from arbitrary (also useless or repeated) centroids and arbitrary assignments *)
Assign == {[kind |-> "assign", n |-> 5, d |-> 2, k |-> 3, pts |-> Cloud(5, 2, q), seed |-> q, th |-> 0] : q \in 1..(IF Deep THEN 40 ELSE 12)}
Centre == {[kind |-> "centre", n |-> 5, d |-> 2, k |-> 3, pts |-> Cloud(5, 2, 3), seed |-> 0, th |-> 0, lab |-> f] : f \in [1..5 -> 0..2]}
Sorted(s) == \A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1]
Names == <<3, 5, 9>>                     \* label values need not be 0..k-1
Match == {[kind |-> "match", n |-> 4, tl |-> t, pl |-> p, k |-> 3] :
            t \in {f \in [1..4 -> 0..2] : Sorted(f) /\ f[1] = 0 /\ \A i \in 1..3 : f[i + 1] <= f[i] + 1}, p \in [1..4 -> 0..2]}
   \cup {[kind |-> "match", n |-> 6, tl |-> [i \in 1..6 |-> Hash(i, s, 1) % 3], pl |-> [i \in 1..6 |-> Hash(i, 2, s) % 3], k |-> 3] : s \in 1..(IF Deep THEN 60 ELSE 12)}
   \cup {[kind |-> "match", n |-> 8, tl |-> [i \in 1..8 |-> Hash(i, s, 4) % 4], pl |-> [i \in 1..8 |-> Hash(i, 5, s) % 4], k |-> 4] : s \in 1..(IF Deep THEN 60 ELSE 10)}
Named == {[kind |-> "match", n |-> m.n, k |-> 0, tl |-> [i \in 1..m.n |-> Names[m.tl[i] + 1]], pl |-> [i \in 1..m.n |-> Names[((m.pl[i] + 1) % 3) + 1] - 2]] :
            m \in {x \in Match : x.n = 6}}
Sizes == {[kind |-> "sizes", sz |-> s] : s \in {t \in UNION {[1..q -> 0..3] : q \in 1..3} : SumS(t) > 0}}
(* graphs: disjoint cliques of the given sizes, vertices shuffled by a stride, weights as given *)
Graph(sz, st, w) == LET lab == LabelsOf(sz)  n == Len(lab)  L(i) == lab[((i * st) % n) + 1] IN
   [lab |-> [i \in 1..n |-> L(i)], W |-> [i \in 1..n |-> [j \in 1..n |-> IF i # j /\ L(i) = L(j) THEN w[((i + j) % Len(w)) + 1] ELSE 0]]]
Spectral == {LET g == Graph(s, st, w) IN [kind |-> "graph", lab |-> g.lab, W |-> g.W, k |-> Len(s), st |-> st, seed |-> sd, auto |-> (w = <<1>> /\ \A i \in 1..Len(s) : s[i] = s[1])] :
   s \in {<<3, 4>>, <<3, 3>>, <<2, 3, 2>>, <<3, 3, 3>>}, st \in {1, 2, 5}, w \in {<<1>>, <<1, 2>>}, sd \in 1..1}
(* the same with weights in general position, for the forms built on a Krylov process of 5k steps *)
Fast == {LET g == Graph(s, st, <<1>>)  n == Len(g.lab)  Lo(i, j) == IF i < j THEN i ELSE j  Hi(i, j) == IF i < j THEN j ELSE i IN
   [kind |-> "fast", lab |-> g.lab, k |-> Len(s), st |-> st, seed |-> sd,
    W |-> [i \in 1..n |-> [j \in 1..n |-> IF g.W[i][j] = 0 THEN 0 ELSE 1 + ((Lo(i, j) * 7 + Hi(i, j) * 13 + i * j * (5 + st)) % 11)]]] :
   s \in {<<7, 9>>, <<10, 6>>, <<8, 8, 8>>, <<7, 9, 8>>}, st \in {1, 5, 7}, sd \in 1..(IF Deep THEN 4 ELSE 1)}
Stride(g) == Cardinality(Vals([i \in 1..Len(g.lab) |-> (i * g.st) % Len(g.lab)])) = Len(g.lab)
Items == Lloyd \cup Restart \cup Assign \cup Centre \cup Match \cup Named \cup Sizes \cup {g \in Spectral \cup Fast : Stride(g)}
VARIABLES item, cen, lab, steps
vars == <<item, cen, lab, steps>>
FirstNearest(P, c) == [i \in 1..Len(P) |-> Min(NearestSet(VScale(KS, P[i]), c))]
Init == /\ item \in Items /\ steps = 0
        /\ IF item.kind = "lloyd"
           THEN \E f \in {q \in [1..item.k -> 1..item.n] : \A a, b \in 1..item.k : a < b => q[a] < q[b]} :
                  /\ cen = [c \in 1..item.k |-> VScale(KS, item.pts[f[c]])]
                  /\ lab = FirstNearest(item.pts, cen)
           ELSE cen = <<>> /\ lab = <<>>
Step == /\ item.kind = "lloyd" /\ steps < 6 /\ steps' = steps + 1 /\ UNCHANGED item
        /\ \E c \in {Means(item.pts, lab, item.k)} : cen' = c /\ lab' = FirstNearest(item.pts, c)
Out == /\ steps = 0 /\ item.kind # "none" /\ steps' = -1 /\ cen' = <<>> /\ lab' = <<>>
       /\ item' = [kind |-> "none"]
       /\ (Emit => PrintT(<<"CASE", ToJson(item)>>))
Next == Step \/ Out
Spec == Init /\ [][Next]_vars
(* Lloyd's iteration never increases the total squared distance ... *)
Descends == [][steps' = steps + 1 => Cost(item.pts, cen', lab') <= Cost(item.pts, cen, lab)]_vars
(* ... and whatever it is cheapest for, the assignment is a nearest one *)
Nearest == item.kind = "lloyd" => \A i \in 1..item.n : D2(VScale(KS, item.pts[i]), cen[lab[i] + 1]) = Best(VScale(KS, item.pts[i]), cen)
(* label matching is symmetric, bounded, perfect exactly on equal partitions *)
Matching == item.kind = "match" => LET m == MaxAgree(item.tl, item.pl) IN
   /\ m = MaxAgree(item.pl, item.tl) /\ m >= 1 /\ m <= item.n
   /\ (m = item.n) = SamePartition(item.tl, item.pl)
SizesInverse == item.kind = "sizes" => SizesOf(LabelsOf(item.sz), Len(item.sz)) = item.sz
(* component indicators span the null space of the Laplacian *)
LapNull == item.kind \in {"graph", "fast"} => \A c \in Vals(item.lab) :
   MatVec(Lap(item.W), [i \in 1..Len(item.lab) |-> IF item.lab[i] = c THEN 1 ELSE 0]) = Zeros(Len(item.lab))
=============================================================================
