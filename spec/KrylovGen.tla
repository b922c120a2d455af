----------------------------- MODULE KrylovGen ------------------------------
EXTENDS Krylov, Json
CONSTANTS Fam, Deep, Emit
D2 == << <<2, 1>>, <<1, 3>> >>
D2b == << <<4, -1>>, <<-1, 2>> >>
D3 == << <<4, 1, 0>>, <<1, 3, -1>>, <<0, -1, 2>> >>
D3b == << <<2, -1, 0>>, <<-1, 2, -1>>, <<0, -1, 2>> >>
D3c == << <<5, 2, 1>>, <<2, 4, -1>>, <<1, -1, 3>> >>
D4 == << <<4, 1, 0, 1>>, <<1, 5, 2, 0>>, <<0, 2, 6, -1>>, <<1, 0, -1, 3>> >>
D4b == << <<3, 1, 0, 0>>, <<1, 3, 0, 0>>, <<0, 0, 2, 1>>, <<0, 0, 1, 4>> >>
Diag4 == << <<1, 0, 0, 0>>, <<0, 3, 0, 0>>, <<0, 0, 6, 0>>, <<0, 0, 0, 2>> >>
D5 == << <<3, 1, 0, 0, -1>>, <<1, 4, 1, 0, 0>>, <<0, 1, 5, 1, 0>>, <<0, 0, 1, 2, 0>>, <<-1, 0, 0, 0, 6>> >>
SPD == {D2, D3, D3b, D4, D4b, Diag4, D5} \cup (IF Deep THEN {D2b, D3c} ELSE {})
Vecs(n) == {Basis(n, 1), [i \in 1..n |-> 1], [i \in 1..n |-> IF (i % 2) = 1 THEN i ELSE -2], [i \in 1..n |-> ((i * i) % 5) - 2]}
           \cup (IF Deep THEN {[i \in 1..n |-> 3 - i], [i \in 1..n |-> (7 * i) % 4]} ELSE {})
Starts(n) == {Zeros(n), [i \in 1..n |-> IF i = 1 THEN 2 ELSE -1], [i \in 1..n |-> i - 2]}
Precs(A) == LET n == Len(A) IN {Ident(n), [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 + (i % 3) ELSE 0]],
             [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 2 ELSE IF Abs(i - j) = 1 THEN -1 ELSE 0]]}
Cg(A) == LET n == Len(A) IN
  {[kind |-> "cg", A |-> A, M |-> <<>>, b |-> b, x0 |-> x, tol |-> t, atol |-> 0] : b \in Vecs(n), x \in Starts(n), t \in {1, 1000, 4000}}
  \cup {[kind |-> "cg", A |-> A, M |-> <<>>, b |-> MatVec(A, [i \in 1..n |-> i - 2]), x0 |-> [i \in 1..n |-> i - 2], tol |-> 1, atol |-> 0],
        [kind |-> "cg", A |-> A, M |-> <<>>, b |-> Zeros(n), x0 |-> [i \in 1..n |-> i], tol |-> 1, atol |-> 0],
        [kind |-> "cg", A |-> A, M |-> <<>>, b |-> Zeros(n), x0 |-> Zeros(n), tol |-> 1, atol |-> 0]}
Pcg(A) == LET n == Len(A) IN
  {[kind |-> "pcg", A |-> A, M |-> M, b |-> b, x0 |-> x, tol |-> t[1], atol |-> t[2]] : M \in Precs(A), b \in Vecs(n), x \in Starts(n),
          t \in {<<1, 0>>, <<2000, 0>>, <<1, 6000>>}}
  \cup {[kind |-> "pcg", A |-> A, M |-> M, b |-> Zeros(n), x0 |-> [i \in 1..n |-> i], tol |-> 1000, atol |-> 0] : M \in Precs(A)}
Rects == {<< <<1, 2>>, <<-1, 1>>, <<2, 0>> >>, << <<2, 1, 0>>, <<0, 1, -1>>, <<1, 0, 2>> >>, << <<1, 0, 2, 1>>, <<-1, 1, 0, 2>> >>,
          << <<1, 1, 0>>, <<0, 2, 1>>, <<1, -1, 1>>, <<2, 0, -1>>, <<0, 1, 2>> >>, << <<3, 1, 0, 2>>, <<1, 2, -1, 0>>, <<0, 1, 2, 1>> >>,
          << <<2, 0>>, <<0, 2>>, <<0, 0>> >>}
         \cup (IF Deep THEN {<< <<1, 2, 3>>, <<2, 1, -1>>, <<0, 1, 1>>, <<1, 1, 0>> >>, << <<4, 1>>, <<1, 1>> >>} ELSE {})
CRects == {[r |-> << <<1, 2>>, <<-1, 1>>, <<2, 0>> >>, i |-> << <<0, 1>>, <<1, 0>>, <<-1, 1>> >>],
           [r |-> << <<2, 1>>, <<0, 1>> >>, i |-> << <<0, -1>>, <<1, 1>> >>],
           [r |-> << <<1, 0, 2>>, <<-1, 1, 0>> >>, i |-> << <<1, 1, 0>>, <<0, 2, -1>> >>]}
Crit == {[atol |-> 0, btol |-> 0, con |-> 0], [atol |-> 1500, btol |-> 0, con |-> 0], [atol |-> 0, btol |-> 4000, con |-> 0],
         [atol |-> 500, btol |-> 1000, con |-> 0], [atol |-> 0, btol |-> 0, con |-> 2], [atol |-> 0, btol |-> 0, con |-> 4]}
Lsqr == {[kind |-> "lsqr", A |-> A, Ai |-> <<>>, b |-> b, bi |-> <<>>, x0 |-> x, xi |-> <<>>, damp |-> dp, cr |-> c] :
           A \in Rects, b \in UNION {Vecs(m) : m \in 2..5}, x \in UNION {Starts(n) : n \in 2..4}, dp \in 0..2, c \in Crit}
CLsqr == {[kind |-> "lsqr", A |-> A.r, Ai |-> A.i, b |-> b, bi |-> Reverse(b), x0 |-> x, xi |-> Reverse(x), damp |-> dp, cr |-> c] :
           A \in CRects, b \in UNION {Vecs(m) : m \in 2..5}, x \in UNION {Starts(n) : n \in 2..4}, dp \in 0..1, c \in Crit}
Fit(d) == Len(d.b) = Len(d.A) /\ Len(d.x0) = Cols(d.A)
(* keep a fixed fraction of the products, decided by their content *)
Pick(d, f) == (SumS([i \in 1..Len(d.b) |-> (i + 2) * d.b[i]]) + 3 * SumS([i \in 1..Len(d.x0) |-> i * d.x0[i]]) + d.damp * 5 + d.cr.atol \div 100 + d.cr.btol \div 100 + 7 * d.cr.con + 2 * d.A[1][1] + d.A[1][2]) % f = 0
Items == IF Fam = "cg" THEN UNION {Cg(A) \cup Pcg(A) : A \in SPD}
         ELSE {d \in Lsqr : Fit(d) /\ (Deep \/ Pick(d, 6))} \cup {d \in CLsqr : Fit(d) /\ (Deep \/ Pick(d, 4))}
Emb(d) == Embed(d.A, d.Ai)
NOf(d) == IF d.kind = "lsqr" THEN NormalMat(Emb(d), d.damp) ELSE d.A
MOf(d) == IF d.kind = "pcg" THEN d.M ELSE Ident(Len(NOf(d)))
GOf(d) == IF d.kind = "lsqr" THEN MatTVec(Emb(d), VSub(d.b \o d.bi, MatVec(Emb(d), d.x0 \o d.xi))) ELSE VSub(d.b, MatVec(d.A, d.x0))
VARIABLES item, N, g, S, k, z
vars == <<item, N, g, S, k, z>>
Init == /\ item \in Items /\ N = NOf(item) /\ g = GOf(item) /\ S = Krylov(N, MOf(item), g) /\ k = 0 /\ z = Zeros(Len(g))
Good == Clear(S, Len(g))
Step == Good /\ k < KDim(S) /\ k' = k + 1 /\ z' = Iter(S, g, k + 1) /\ UNCHANGED <<item, N, g, S>>
Out == Good /\ k = KDim(S) /\ k' = 99 /\ UNCHANGED <<item, N, g, S, z>> /\ (Emit => PrintT(<<"CASE", ToJson(item)>>))
Next == Step \/ Out
Spec == Init /\ [][Next]_vars
Rows == LET a == [i \in 1..Len(N) |-> SumS([j \in 1..Len(N) |-> Abs(N[i][j])])] IN MaxS(a)
R == Resid(N, g, z)
Energy(u) == KDot(u, MatVec(N, u)) - 2 * KDot(KSc(g), u)
Galerkin == Good => \A i \in 1..Min2(k, KDim(S)) : Abs(KDot(R, S.V[i])) <= 8 * Rows + MaxAbs(z) \div 3000
Solved == (Good /\ k >= KDim(S)) => MaxAbs(R) <= 12 * Rows + MaxAbs(z) \div 1000
Descends == [][(k' = k + 1) => Energy(z') <= Energy(z) + 60]_vars
InSpace == (Good /\ k < 99) => MaxAbs(Orth(z, SubSeq(S.V, 1, k))) <= 30 + MaxAbs(z) \div 2000
=============================================================================
