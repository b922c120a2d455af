------------------------------- MODULE FomGen -------------------------------
EXTENDS Fom, Json
CONSTANTS Deep, Emit
R(v) == [i \in 1..Len(v) |-> <<v[i], 0>>]
RM(M) == [i \in 1..Len(M) |-> R(M[i])]
(* ---- iterative thresholding ---- *)
(* system matrix with a bound on its squared norm *)
Mats == {[A |-> RM(<< <<1, 2, 0>>, <<0, 1, -1>> >>), nn |-> 7], [A |-> RM(<< <<2, 1, 0>>, <<1, -1, 1>>, <<0, 1, 2>> >>), nn |-> 8],
         [A |-> RM(<< <<1, 1>>, <<1, -1>>, <<0, 2>> >>), nn |-> 7],
         [A |-> << <<<<1, 1>>, <<0, 1>>>>, <<<<1, 0>>, <<2, -1>>>> >>, nn |-> 9],
         [A |-> << <<<<1, 0>>, <<0, 2>>, <<1, -1>>>>, <<<<0, 1>>, <<1, 0>>, <<1, 1>>>> >>, nn |-> 11],
         [A |-> RM(<< <<1, 0, 2, -1>>, <<0, 1, 1, 1>>, <<1, -1, 0, 2>> >>), nn |-> 10],
         [A |-> << <<<<1, 0>>, <<0, 1>>, <<1, 1>>, <<0, 0>>>>, <<<<0, -1>>, <<2, 0>>, <<0, 0>>, <<1, 0>>>> >>, nn |-> 9]}
Cplx(M) == \E i \in 1..Len(M) : \E j \in 1..Cols(M) : M[i][j][2] # 0
Rhs(m) == IF m = 2 THEN {R(<<3, 1>>), R(<<-2, 2>>)} ELSE {R(<<3, 1, -2>>), R(<<1, 2, 4>>)}
CRhs(m) == IF m = 2 THEN {<<<<2, 1>>, <<-1, 3>>>>, <<<<0, 2>>, <<3, 0>>>>} ELSE {<<<<2, 1>>, <<-1, 3>>, <<1, 0>>>>}
X0s(n) == {[i \in 1..n |-> PZero], [i \in 1..n |-> <<(i % 3) - 1, 0>>]}
Id == [k |-> "id", M |-> <<>>, d |-> 1]
Bases(n, cx) == {Id} \cup (CASE n = 2 -> {[k |-> "rot", M |-> RM(<< <<0, 1>>, <<-1, 0>> >>), d |-> 1]} \cup (IF cx THEN {[k |-> "ph", M |-> << <<<<0, 1>>, PZero>>, <<PZero, <<1, 0>>>> >>, d |-> 1]} ELSE {})
                   [] n = 3 -> {[k |-> "perm", M |-> RM(<< <<0, 0, 1>>, <<-1, 0, 0>>, <<0, 1, 0>> >>), d |-> 1]}
                   [] n = 4 -> {[k |-> "had", M |-> RM(<< <<1, 1, 1, 1>>, <<1, -1, 1, -1>>, <<1, 1, -1, -1>>, <<1, -1, -1, 1>> >>), d |-> 2]}
                     \cup (IF cx THEN {[k |-> "dft", M |-> << <<<<1, 0>>, <<1, 0>>, <<1, 0>>, <<1, 0>>>>, <<<<1, 0>>, <<0, 1>>, <<-1, 0>>, <<0, -1>>>>, <<<<1, 0>>, <<-1, 0>>, <<1, 0>>, <<-1, 0>>>>, <<<<1, 0>>, <<0, -1>>, <<-1, 0>>, <<0, 1>>>> >>, d |-> 2]} ELSE {}))
Thrs == {[k |-> "soft", tau |-> 500], [k |-> "soft", tau |-> 3000], [k |-> "hard", tau |-> 4000], [k |-> "decay", tau |-> 6000], [k |-> "default", tau |-> 0]}
Tols == {[rt |-> 1, xt |-> 0], [rt |-> 300, xt |-> 0], [rt |-> 1, xt |-> 600]}       \* residual tolerance in thousandths, change tolerance in 1/Q
IstItems == UNION {UNION {{[alg |-> a, A |-> M.A, nn |-> M.nn, b |-> b, x0 |-> x, B |-> B, h |-> t, den |-> dn, o |-> o, cx |-> IF Cplx(M.A) THEN 1 ELSE 0, K |-> 8] :
      a \in {"ista", "fista"}, x \in X0s(Cols(M.A)), B \in Bases(Cols(M.A), Cplx(M.A)), t \in Thrs, dn \in {M.nn + 1, 2 * M.nn}, o \in Tols} :
      b \in IF Cplx(M.A) THEN CRhs(Len(M.A)) ELSE Rhs(Len(M.A))} : M \in Mats}
IstKeep == {d \in IstItems : (Deep \/ d.o.rt = 1 \/ d.den = d.nn + 1) /\ (Deep \/ d.o = [rt |-> 1, xt |-> 0] \/ d.h.k \in {"soft", "decay"})}
(* ---- accelerated proximal gradient ---- *)
RMats == {<< <<1, 2, 0>>, <<0, 1, -1>> >>, << <<2, 1, 0>>, <<1, -1, 1>>, <<0, 1, 2>> >>, << <<1, 1>>, <<1, -1>>, <<0, 2>> >>, << <<1, 0>>, <<0, 1>> >>, << <<2, 1>>, <<1, 1>> >>}
RRhs(m) == IF m = 2 THEN {<<3, 1>>, <<-1, 2>>} ELSE {<<3, 1, -2>>, <<1, 2, 4>>}
RX0(n) == {Zeros(n), [i \in 1..n |-> i - 2]}
Hs(n) == {[k |-> "l1", w |-> <<20>>], [k |-> "l1", w |-> <<150>>], [k |-> "ball", w |-> <<100>>], [k |-> "ball", w |-> <<400>>],
          [k |-> "owl1", w |-> [i \in 1..n |-> 100 - 30 * i]], [k |-> "owl1", w |-> [i \in 1..n |-> IF i = 1 THEN 200 ELSE 50]]}
Opts == {[L0 |-> 1, lx |-> 0, alpha |-> 90, beta |-> 50], [L0 |-> 12, lx |-> 0, alpha |-> 90, beta |-> 50], [L0 |-> 1, lx |-> 5, alpha |-> 100, beta |-> 80], [L0 |-> 20, lx |-> 0, alpha |-> 60, beta |-> 20]}
FomItems == UNION {UNION {{[alg |-> "fom", A |-> M, b |-> b, x0 |-> x, h |-> h, o |-> o, K |-> 8] : x \in RX0(Cols(M)), h \in Hs(Cols(M)), o \in Opts} : b \in RRhs(Len(M))} : M \in RMats}
VARIABLES item, st
vars == <<item, st>>
Items == IstKeep \cup FomItems
Start(d) == IF d.alg = "fom" THEN With(IF d.h.k = "ball" THEN ProxV(d.h, VScale(Q, d.x0), Q) ELSE VScale(Q, d.x0), LAMBDA x : [x |-> x, z |-> x, L |-> d.o.L0 * Q, th |-> 0, it |-> 0, obj |-> 0])
            ELSE [x |-> ZUp(d.x0), z |-> ZUp(d.x0), t |-> Q, it |-> 0, prev |-> ZUp(d.x0)]
IstStep(d, s) ==
  LET from == IF d.alg = "fista" THEN s.z ELSE s.x
      fin(x) == [x |-> x, z |-> IF d.alg = "fista" THEN With(NextT(s.t), LAMBDA t : ZAdd(x, ZMulR(QDiv(s.t - Q, t), ZSub(x, s.x)))) ELSE x,
                 t |-> IF d.alg = "fista" THEN NextT(s.t) ELSE Q, it |-> s.it + 1, prev |-> s.x] IN
   With(Syn(d.B, Thr(d.h, s.it, Rep(d.B, GradStep(d, from, Res(d.A, d.b, from))))), fin)
FomStep(d, s) ==
  LET L == RDiv(s.L * d.o.alpha, 100)  th == NextTheta(s.th, d.o.alpha)  step == QDiv(Q, FQ(th, L))
      fin(y, z, x) == LET mv == VSub(x, y) IN [x |-> x, z |-> z, th |-> th, it |-> s.it + 1, obj |-> Half2(RRes(d.A, d.b, x)) + HVal(d.h, x),
                       L |-> IF FDot(mv, mv, Q) < 40 THEN L ELSE NextL(L, Curv(d.A, mv), d.o.beta, d.o.lx)] IN
   With(Blend(th, s.x, s.z), LAMBDA y : With(ProxV(d.h, VSub(s.z, With(RGrad(d.A, RRes(d.A, d.b, y)), LAMBDA g : [i \in 1..Len(g) |-> FQ(step, g[i])])), step),
        LAMBDA z : With(Blend(th, s.x, z), LAMBDA x : fin(y, z, x))))
Init == item \in Items /\ st = Start(item)
Next == /\ st.it < 4 /\ UNCHANGED item
        /\ (\E s \in {IF item.alg = "fom" THEN FomStep(item, st) ELSE IstStep(item, st)} : st' = s)
        /\ ((Emit /\ st.it = 0) => PrintT(<<"CASE", ToJson(item)>>))
Spec == Init /\ [][Next]_vars
(* ISTA with a fixed soft threshold and a step at most 1 / |A|^2 never increases |b - A x|^2 / 2 + (tau den) |B' x|_1 *)
IObj(d, x) == (ZSq(Res(d.A, d.b, x)) \div 2) + d.den * FQ(d.h.tau, SumS([i \in 1..Len(x) |-> PAbs(Rep(d.B, x)[i])]))
Descent == (item.alg = "ista" /\ item.h.k = "soft" /\ st.it > 0) => IObj(item, st.x) <= IObj(item, st.prev) + 60
(* FISTA: t_k >= (k + 2) / 2 and the rate F(x_k) - F(u) <= 2 den |x0 - u|^2 / (k + 1)^2 against every u of a grid *)
Growth == item.alg = "fista" => st.t * 2 >= (st.it + 2) * Q - 8
GridU(n) == {[i \in 1..n |-> <<v[i] * 5000, 0>>] : v \in [1..n -> {-2, 0, 1, 3}]}
Rate == (item.alg = "fista" /\ item.h.k = "soft" /\ st.it > 0 /\ Cols(item.A) <= 3) =>
     \A u \in GridU(Cols(item.A)) : IObj(item, st.x) - IObj(item, u) <= RDiv(2 * item.den * ZSq(ZSub(ZUp(item.x0), u)), (st.it + 1) * (st.it + 1)) + 200
(* accelerated method: weights decrease, iterates of the constrained problem stay inside, prox computed satisfies the optimality relation used for judging *)
ThetaOK == (item.alg = "fom" /\ st.it > 0) => st.th <= Q + 10 /\ st.th > 0
BallOK == (item.alg = "fom" /\ item.h.k = "ball") => SumS(AbsV(st.x)) <= W(item.h, 1) + 20
ProxAgrees == item.alg = "fom" => \A t \in {2000, 10000, 25000} : \A v \in {VAdd(st.x, VScale(1, RGrad(item.A, RRes(item.A, item.b, st.x))))} : ProxF(item.h, v, t, ProxV(item.h, v, t), 8)
=============================================================================
