-------------------------------- MODULE L1Gen -------------------------------
EXTENDS L1, Json
CONSTANTS Deep, Emit
(* ---- alternating directions: rows orthonormal ---- *)
Tight == {[M |-> << <<1, 2, 2>>, <<2, 1, -2>> >>, d |-> 3], [M |-> << <<1, 1, 1, 1>>, <<1, -1, 1, -1>> >>, d |-> 2],
          [M |-> << <<1, 1, -1, 1>>, <<1, -1, 1, 1>> >>, d |-> 2], [M |-> << <<3, 4, 0>>, <<0, 0, 5>> >>, d |-> 5]}
Xs(n) == IF n = 3 THEN {<<2, 0, 0>>, <<1, 0, 3>>, <<1, 2, 1>>, <<0, 3, 0>>} ELSE {<<0, 2, 0, 0>>, <<1, 0, 0, 2>>, <<1, 2, 1, 0>>, <<3, 0, 1, 0>>}
Sgn(x) == {x, [i \in 1..Len(x) |-> IF i % 2 = 1 THEN -x[i] ELSE x[i]]}
Wts(n) == {Ones(n), [i \in 1..n |-> IF i = 1 THEN 2000 ELSE 8000 + 2000 * i], [i \in 1..n |-> IF i = 2 THEN 5000 ELSE Q]}
Models == {[model |-> "bp", pf |-> 0], [model |-> "pen", pf |-> 20], [model |-> "pen", pf |-> 70], [model |-> "pen", pf |-> 120], [model |-> "con", pf |-> 15], [model |-> "con", pf |-> 60], [model |-> "con", pf |-> 94], [model |-> "con", pf |-> 110]}
(* pf: percentage of max |A'b| (penalty) or of |b| (constraint); at or above 100 the zero vector may be optimal *)
Meas(p, x) == Ap(p, VScale(Q, x))
Par(p, b, m) == CASE m.model = "bp" -> 0 [] m.model = "pen" -> RDiv(m.pf * MaxAbs(ApH(p, b)), 100) [] m.model = "con" -> RDiv(m.pf * Nrm(b), 100)
Bases4(n) == {<<>>} \cup (IF n = 3 THEN {<< <<0, 0, 1>>, <<-1, 0, 0>>, <<0, 1, 0>> >>} ELSE {<< <<1, 1, 1, 1>>, <<1, -1, 1, -1>>, <<1, 1, -1, -1>>, <<1, -1, -1, 1>> >>})
Small1(d) == Deep \/ ((d.model = "con" => d.gamma = Q /\ d.z0 = 0 /\ d.wn + d.nn <= 1) /\ (d.z0 = 0 \/ d.gamma # Q) /\ (d.model = "pen" /\ d.wn = 1 /\ d.nn = 1 => d.gamma = Q))
(* ---- interior point for penalised least squares ---- *)
Small == {[M |-> << <<1, 2, 0>>, <<0, 1, -1>> >>, d |-> 1], [M |-> << <<2, 1, 1>>, <<1, -1, 2>> >>, d |-> 1], [M |-> << <<1, 1>>, <<1, -1>> >>, d |-> 1], [M |-> << <<2, 1>>, <<1, 1>> >>, d |-> 1],
          [M |-> << <<1, 0, 1, 2>>, <<0, 1, -1, 1>> >>, d |-> 1]}
Bs == {<<2, 1>>, <<-1, 3>>, <<3, 0>>, <<1, 1>>}
IpmItems == {[alg |-> "ipm", M |-> p.M, d |-> 1, b |-> VScale(Q, b), lam |-> lam, x0 |-> x0, tol |-> t, cnt |-> 0] :
      p \in Small, b \in Bs, lam \in {1000, 5000, 20000, 200000}, x0 \in {0, 1, 5}, t \in {100, 300}}      \* tolerance in 1/100000
(* ---- reweighted least squares ---- *)
FocItems == {[alg |-> "foc", M |-> p.M, d |-> 1, b |-> VScale(Q, b), h |-> h] :
      p \in {q \in Small : Cols(q.M) = 3}, b \in Bs \cup {<<2, 2>>, <<0, 1>>, <<1, -3>>}, h \in {1, 2}}
(* ---- spectral projected gradient ---- *)
CM == {[k |-> "r", M |-> << <<1, 2, 0>>, <<0, 1, -1>> >>], [k |-> "r", M |-> << <<2, 1, 1>>, <<1, -1, 2>> >>], [k |-> "r", M |-> << <<1, 0, 1, 2>>, <<0, 1, -1, 1>> >>],
       [k |-> "r", M |-> << <<1, 1>>, <<1, -1>>, <<0, 2>> >>]}
R(v) == [i \in 1..Len(v) |-> <<v[i], 0>>]
RM(M) == [i \in 1..Len(M) |-> R(M[i])]
SM == {RM(c.M) : c \in CM} \cup {<< <<<<1, 1>>, <<0, 1>>, <<2, 0>>>>, <<<<1, 0>>, <<2, -1>>, <<0, 1>>>> >>}
Cplx(M) == \E i \in 1..Len(M) : \E j \in 1..Cols(M) : M[i][j][2] # 0
SB(M) == IF Cplx(M) THEN {<<<<2, 1>>, <<-1, 3>>>>, <<<<0, 2>>, <<3, 0>>>>, R(<<2, 1>>)} ELSE IF Len(M) = 3 THEN {R(<<3, 1, -2>>), R(<<1, 2, 4>>)} ELSE {R(v) : v \in Bs \cup {<<-2, 4>>, <<1, -3>>}}
Probs(M) == {[prob |-> "lasso", par |-> t] : t \in {3000, 10000, 25000, 60000}} \cup {[prob |-> "bpic", par |-> t] : t \in (IF Len(M) = 2 THEN {1000, 5000, 15000} ELSE {}) \cup {50000}} \cup (IF Len(M) = 2 THEN {[prob |-> "bp", par |-> 0]} ELSE {})
SpKeep(d) == (d.x0 = 1 => d.prob # "bp") /\ (Deep \/ d.mem = 3 \/ d.x0 = 0)
Count1(d) == IF d.alg = "adm" THEN d.z0 = 0 /\ d.gamma = Q /\ d.par % 3 = 0 /\ d.wn = 0 ELSE IF d.alg = "ipm" THEN d.x0 # 1 /\ d.b[1] = 20000 ELSE IF d.alg = "spg" THEN d.cx = 0 /\ d.mem = 3 /\ d.b[1][1] \in {2, 3} ELSE FALSE
Mark(d) == IF d.alg # "foc" /\ Count1(d) THEN [d EXCEPT !.cnt = 1] ELSE d
VARIABLES item, st
vars == <<item, st>>
Bm(d) == MaxAbs(d.b)
Sc(d) == [i \in 1..Len(d.b) |-> QDiv(d.b[i], Bm(d))]
Cfg(d) == [model |-> d.model, w |-> d.w, nn |-> d.nn, gamma |-> d.gamma, par |-> QDiv(d.par, Bm(d))]
Start(d) == CASE d.alg = "adm" -> [x |-> ApH(d, Sc(d)), z |-> [i \in 1..Len(d.w) |-> IF d.z0 = 1 THEN RDiv(d.w[i], 2) ELSE 0], it |-> 0]
              [] d.alg = "foc" -> [x |-> Ones(3), it |-> 0]
              [] OTHER -> [it |-> 0]
Step(d, s) == CASE d.alg = "adm" -> With(AdmTwo(d, Cfg(d), Sc(d), MeanAbs(Sc(d)), s), LAMBDA t : [x |-> t.x, z |-> t.z, it |-> s.it + 1])
                [] d.alg = "foc" -> [x |-> FocStep(d.M, d.b, s.x, d.h), it |-> s.it + 1]
                [] OTHER -> [it |-> s.it + 9]
Pick == \/ \E p \in Tight : \E x \in UNION {Sgn(v) : v \in Xs(Cols(p.M))} : \E b \in {Meas(p, x)} : \E f \in {BPBest(p, b, Ones(Cols(p.M)), 1) < Lim} : \E m \in Models : \E par \in {Par(p, b, m)} :
           \E w \in Wts(Cols(p.M)), nn \in (IF f THEN {0, 1} ELSE {0}), gm \in {Q, 16000}, z \in {0, 1} :
           \E d \in {[alg |-> "adm", M |-> p.M, d |-> p.d, b |-> b, model |-> m.model, par |-> par, w |-> w, wn |-> IF w = Ones(Len(w)) THEN 0 ELSE 1, nn |-> nn, gamma |-> gm, z0 |-> z, cnt |-> 0]} :
             Small1(d) /\ item = Mark(d)
        \/ \E d \in IpmItems : item = Mark(d)
        \/ \E d \in FocItems : item = d
        \/ \E k \in {"bp", "dantzig"} : \E b \in {<<2, 1>>, <<-1, 3>>} : item = [alg |-> "scd", M |-> << <<1, 2, 0>>, <<0, 1, -1>> >>, b |-> b, k |-> k]
        \/ \E M \in SM : \E b \in SB(M), q \in Probs(M), x0 \in {0, 1}, mm \in {1, 3} :
           \E d \in {[alg |-> "spg", M |-> M, b |-> b, cx |-> IF Cplx(M) THEN 1 ELSE 0, prob |-> q.prob, par |-> q.par, x0 |-> x0, mem |-> mm, K |-> 8, cnt |-> 0]} : SpKeep(d) /\ item = Mark(d)
Init == Pick /\ st = Start(item)
Next == /\ st.it < (IF item.alg = "adm" THEN 20 ELSE 2) /\ UNCHANGED item
        /\ (\E s \in {Step(item, st)} : st' = s)
        /\ ((Emit /\ st.it = 0) => PrintT(<<"CASE", ToJson(item)>>))
Spec == Init /\ [][Next]_vars
(* the dual variable stays in its set; a feasible iterate is never below the optimum of the basic solutions *)
DualBox == item.alg = "adm" => \A i \in 1..Len(st.z) : st.z[i] <= item.w[i] /\ (item.nn = 1 \/ st.z[i] >= -item.w[i])
Scaled(d) == VScale(1, [i \in 1..Len(st.x) |-> FQ(Bm(d), st.x[i])])
BpBound == (item.alg = "adm" /\ item.model = "bp" /\ item.nn = 0) =>
     (MaxAbs(VSub(item.b, Ap(item, Scaled(item)))) <= 30 => WL1(item.w, Scaled(item)) >= BPBest(item, item.b, item.w, 0) - 120)
(* the best sign pattern is stationary *)
PatternOK == item.alg = "ipm" => \E x \in PatPts(item, item.b, item.lam) :
     /\ LSObj(item, item.b, item.lam, x) = LSBest(item, item.b, item.lam)
     /\ SubGrad([k |-> "l1", w |-> <<100>>], VScale(2, ApH(item, VSub(item.b, Ap(item, x)))), x, item.lam, 40)
(* a reweighted step solves the system *)
FocFeasible == (item.alg = "foc" /\ st.it > 0) => VNear(MatVec(item.M, st.x), item.b, 60)
=============================================================================
