---------------------------- MODULE SpectrumGen -----------------------------
EXTENDS Spectrum, Json, Functions
CONSTANTS Deep, Emit
B5 == Prod(Cyc(Sum2(W3, R2)), Cyc(Sum2(R2, W3)))
B6 == Sum2(Cyc(Sum2(I1, R2)), W3)
B10 == Sum2(Sum2(H4, Cyc(R2)), Sum2(H4, Eye(0)))
Base(n) == CASE n = 1 -> {I1} [] n = 2 -> {R2, Cyc(R2)} [] n = 3 -> {W3, Cyc(W3)} [] n = 4 -> {H4, Cyc(H4)} [] n = 5 -> {Cyc(Sum2(W3, R2))}
             [] n = 6 -> {B6} [] n = 10 -> {Cyc(Sum2(W3, Sum2(H4, W3)))} [] n = 12 -> {Sum2(W3, Sum2(W3, Sum2(H4, R2)))}
Shapes == {<<2, 2>>, <<3, 2>>, <<2, 4>>, <<3, 3>>, <<4, 3>>, <<4, 4>>, <<5, 4>>, <<4, 6>>, <<6, 5>>, <<1, 3>>, <<3, 1>>} \cup {<<12, 10>>, <<10, 12>>}
Spectra(r) == CASE r = 1 -> {<<4>>, <<0>>}
   [] r = 2 -> {<<3, 1>>, <<5, 0>>, <<2, 2>>}
   [] r = 3 -> {<<7, 4, 1>>, <<3, 3, 1>>, <<6, 2, 0>>, <<2, 2, 2>>, <<5, 0, 0>>}
   [] r = 4 -> {<<8, 5, 3, 1>>, <<4, 4, 2, 2>>, <<6, 3, 0, 0>>, <<9, 3, 3, 1>>}
   [] r = 5 -> {<<9, 7, 4, 2, 1>>, <<5, 5, 5, 1, 1>>, <<6, 4, 2, 0, 0>>}
   [] r = 10 -> {<<20, 17, 15, 12, 10, 8, 6, 4, 3, 1>>, <<9, 9, 9, 5, 5, 5, 2, 2, 1, 1>>, <<12, 8, 4, 0, 0, 0, 0, 0, 0, 0>>}
Small(sh) == sh[1] <= 6
Mats == UNION {{[X |-> X, s |-> s, Y |-> Y] : X \in Base(sh[1]), Y \in Base(sh[2]), s \in Spectra(Min2(sh[1], sh[2]))} : sh \in Shapes}
MSel == {t \in Mats : Deep \/ (Len(t.X.q) # 4 \/ t.X.q[1][2] = 1) }
Doc(t) == [A |-> Compose(t.X, t.s, t.Y), den |-> t.X.d * t.Y.d, s |-> t.s]
Svd == {[kind |-> "svd", t |-> Doc(t), k |-> k, key |-> y, x64 |-> w] : t \in MSel, k \in {1, 2, 4}, y \in {0, 3}, w \in {0, 1}}
Bpro == {[kind |-> "bpro", t |-> Doc(t), k |-> k, key |-> y, x64 |-> w] : t \in MSel, k \in {2, 3, 5}, y \in {0}, w \in {0, 1}}
Norm == {[kind |-> "norm", t |-> Doc(t), k |-> 0, key |-> 0, x64 |-> 0] : t \in {u \in MSel : Len(u.s) = 1 \/ 10 * u.s[2] <= 9 * u.s[1] \/ u.s[1] = u.s[2]}}
Bnds == {[kind |-> "bounds", t |-> Doc(t), k |-> 0, key |-> 0, x64 |-> 0] : t \in MSel}
(* symmetric matrices with known eigenvalues (signed), and starts *)
Eigs(n) == CASE n = 2 -> {<<3, 1>>, <<-4, 1>>, <<2, -1>>, <<0, 0>>} [] n = 3 -> {<<5, 2, 1>>, <<-6, 3, 1>>, <<4, 4, -1>>, <<7, 0, 0>>} [] n = 4 -> {<<9, 5, -2, 1>>, <<-8, -3, 2, 0>>} [] n = 5 -> {<<6, 4, 3, -1, 0>>}
Power == UNION {{[kind |-> "power", t |-> [A |-> Compose(X, s, X), den |-> X.d * X.d, s |-> s], k |-> 0, key |-> y, x64 |-> 0, b |-> b, top |-> SumS([i \in 1..n |-> X.q[i][1] * b[i]])] :
             X \in Base(n), s \in Eigs(n), y \in {0}, b \in {[i \in 1..n |-> 1], [i \in 1..n |-> (i % 3) - 2], [i \in 1..n |-> 2 * i - 3]}} : n \in 2..5}
(* quick tier: double precision for one rank only, fewer Lanczos lengths *)
Keep(d) == /\ d.k <= Len(d.t.s) /\ d.t.s[1] > 0
           /\ Deep \/ (IF d.kind = "svd" THEN (IF d.x64 = 1 THEN d.k = 2 /\ d.key = 0 ELSE TRUE)
                       ELSE (d.k = 5 \/ (d.k = 3 /\ d.x64 = 0)))
Items == {d \in Svd : Keep(d)} \cup {d \in Bpro : Keep(d)} \cup Norm \cup Bnds \cup Power
VARIABLES item, done
vars == <<item, done>>
Init == item \in {[X |-> t.X, s |-> t.s, Y |-> t.Y] : t \in MSel} \cup Items /\ done = FALSE
Case == "kind" \in DOMAIN item
Out == done = FALSE /\ done' = TRUE /\ UNCHANGED item /\ ((Case /\ Emit) => PrintT(<<"CASE", ToJson(item)>>))
Next == Out
Spec == Init /\ [][Next]_vars
(* the model's own facts: the bases are orthogonal; A y_i = s_i x_i and A^T x_i = s_i y_i exactly *)
Ortho == ~Case => IsOrtho(item.X) /\ IsOrtho(item.Y)
Triplets == ~Case =>
  LET A == Compose(item.X, item.s, item.Y) IN
  \A i \in 1..Len(item.s) :
    /\ MatVec(A, [j \in 1..Len(item.Y.q) |-> item.Y.q[j][i]]) = [j \in 1..Len(A) |-> item.Y.d * item.Y.d * item.s[i] * item.X.q[j][i]]
    /\ MatTVec(A, [j \in 1..Len(item.X.q) |-> item.X.q[j][i]]) = [j \in 1..Cols(A) |-> item.X.d * item.X.d * item.s[i] * item.Y.q[j][i]]
(* the first one is the norm: no grid vector is stretched more *)
Stretch == (~Case /\ Len(item.Y.q) <= 3) =>
  LET A == Compose(item.X, item.s, item.Y)  dd == item.X.d * item.Y.d IN
  \A x \in [1..Len(item.Y.q) -> -2..2] : LET z == MatVec(A, x) IN Dot(z, z) <= dd * dd * item.s[1] * item.s[1] * Dot(x, x)
Sorted == ~Case => item.s = SortDown(item.s)
=============================================================================
