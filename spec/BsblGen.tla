------------------------------ MODULE BsblGen -------------------------------
EXTENDS Bsbl, Json
CONSTANTS Deep, Emit
Phis == {<< <<1, 2, 0, -1>>, <<0, 1, 1, 2>> >>, << <<2, 1, -1, 1>>, <<1, -1, 2, 0>>, <<0, 1, 1, 2>> >>, << <<1, 0, 2, 1, -1, 1>>, <<0, 1, 1, -2, 1, 0>>, <<1, 1, 0, 1, 2, -1>> >>, << <<1, 1, 0, 0>>, <<0, 0, 1, -1>> >>, << <<1, 1, 0, 0>>, <<0, 1, 0, 0>> >>}
Ys(m) == IF m = 2 THEN {<<3, 1>>, <<2, 0>>, <<1, -2>>, <<4, 3>>} ELSE {<<3, 1, 2>>, <<1, -2, 0>>, <<2, 2, -3>>}
BLens(n) == IF n = 4 THEN {1, 2, 4} ELSE {1, 2, 3}
Base == {[P |-> p, y |-> y, b |-> b, alg |-> a, ll |-> l, corr |-> c, lam |-> v, prune |-> t, eps |-> IF c = 1 THEN 0 ELSE 1500, k |-> 4] :
   p \in Phis, y \in UNION {Ys(m) : m \in {2, 3}}, b \in {1, 2, 3, 4}, a \in {"em", "bo", "np"}, l \in {0, 1, 2}, c \in {0, 1}, v \in {2000, 10000}, t \in {10, 4000}}
Items == {d \in Base : Len(d.y) = Len(d.P) /\ d.b \in BLens(Cols(d.P)) /\ (d.alg = "np" => d.prune = 10) /\ (d.b = 1 => d.corr = 1) /\ (Deep \/ d.lam = 2000 \/ d.ll = 1)}
VARIABLES item, st
vars == <<item, st>>
NB(d) == Cols(d.P) \div d.b
Start(d) == [g |-> [i \in 1..NB(d) |-> Q], r |-> 0, lam |-> d.lam, it |-> 0, mu |-> [i \in 1..NB(d) |-> Zeros(d.b)]]
Act(d, s) == [i \in 1..NB(d) |-> d.alg = "np" \/ s.g[i] > d.prune]
S0(d, s) == TLCEval([i \in 1..NB(d) |-> MSc(s.g[i], Ar(s.r, d.b))])
Run(d, s) == Posterior(d.P, d.y, d.b, S0(d, s), s.lam, Act(d, s))
Step(d, s, P) ==
  LET Fin(act, C, r, res2) ==
       [g |-> IF d.alg = "em" THEN GammaEM(C, r, d.b, act) ELSE GammaBO(s.g, P, r, d.b, act), r |-> r,
        lam |-> IF d.ll = 0 THEN s.lam ELSE IF d.ll = 1 THEN LamLow(d.P, P, d.b, res2) ELSE LamHigh(d.P, P, d.b, res2, s.lam, s.g, r, act),
        it |-> s.it + 1, mu |-> P.mu] IN
   With(Act(d, s), LAMBDA act : With(Second(P), LAMBDA C : With(Corr(CorrSum(C, s.g, act, d.b), d.corr), LAMBDA r : With(Resid(d.P, d.y, P.mu, d.b), LAMBDA e : Fin(act, C, r, FDot(e, e, Q))))))
Tame(d, s) == s.lam >= 500 /\ (\E i \in 1..NB(d) : s.g[i] > Max2(d.prune, 500)) /\ \A i \in 1..NB(d) : s.g[i] = 0 \/ s.g[i] > 200
Init == item \in Items /\ st = Start(item)
Next == /\ st.it < 3 /\ Tame(item, st) /\ UNCHANGED item /\ (\E P \in {Run(item, st)} : st' = Step(item, st, P))
        /\ ((Emit /\ st.it = 0) => PrintT(<<"CASE", ToJson(item)>>))
Spec == Init /\ [][Next]_vars
Weights == \A i \in 1..NB(item) : st.g[i] >= -10
Noise == item.ll # 2 => st.lam >= 0
Bounded == Abs(st.r) <= 9900
(* posterior facts, on the first iteration: variances shrink, covariance is symmetric, trace identity behind the noise update *)
Facts == st.it = 0 => \A P \in {Run(item, st)} :
   /\ \A i \in 1..NB(item) : \A c \in 1..item.b : P.Sx[i][c][c] >= -10 /\ P.Sx[i][c][c] <= Q + 10
   /\ LET n == Cols(item.P)  s == SumS([i \in 1..NB(item) |-> Tr(P.Sx[i])]) IN Near(n * Q - s, Len(item.P) * Q - FQ(item.lam, Tr(P.Gi)), 60)
ArInverse == Abs(st.r) < 9000 => MNear(QMul(Ar(st.r, item.b), ArInvN(st.r, item.b)), DiagQ(item.b, ArDen(st.r, item.b)), 12)
=============================================================================
