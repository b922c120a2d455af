----------------------------- MODULE OneBitGen ------------------------------
EXTENDS OneBit, Json
CONSTANTS Deep, Emit
M1 == << <<1, 2, -1, 0>>, <<0, 1, 1, -2>>, <<2, -1, 0, 1>>, <<-1, 0, 2, 1>>, <<1, 1, 1, 1>> >>
M2 == << <<3, -1, 2, 0>>, <<1, 1, -2, 1>>, <<0, 2, 1, -1>>, <<-2, 1, 0, 3>>, <<1, -3, 1, 1>> >>
M3 == << <<1, 0, 1, -1>>, <<0, 1, -1, 2>>, <<1, -2, 3, 1>>, <<2, 1, 0, 0>>, <<-1, 2, 2, 1>> >>
Ms == {M1, M2} \cup (IF Deep THEN {M3} ELSE {})
SignVecs == IF Deep THEN {f \in [1..5 -> {-1, 1}] : TRUE} ELSE {f \in [1..5 -> {-1, 1}] : f[5] = 1}
Xs == {<<1, 0, 0, 0>>, <<0, -2, 0, 3>>, <<2, 1, 0, -1>>, <<0, 0, 3, 3>>, <<-1, 2, -3, 1>>}
Biht == {[kind |-> "biht", A |-> A, y |-> y, K |-> k, tau |-> t] : A \in Ms, y \in SignVecs, k \in 1..3, t \in 1..2}
Meas == {[kind |-> "measure", A |-> A, x |-> x] : A \in Ms, x \in Xs}
Rfp == {[kind |-> "rfp", A |-> A, y |-> y, x0 |-> x, lam |-> l, delta |-> dl, inner |-> n] :
          A \in Ms, y \in {<<1, 1, -1, 1, 1>>, <<-1, 1, 1, 1, -1>>, <<1, -1, -1, 1, -1>>}, x \in {<<3, 4, 0, 0>>, <<1, -1, 1, 1>>, <<-1, 2, 2, 4>>}, l \in {1, 4}, dl \in {5, 10}, n \in {1, 3}}
Guess == {[kind |-> "guess", A |-> A, y |-> y] : A \in Ms, y \in SignVecs}
Items == Biht \cup Meas \cup Rfp \cup Guess
VARIABLES item, x, it
vars == <<item, x, it>>
Init == item \in Items /\ x = <<0, 0, 0, 0>> /\ it = 0
Step == /\ item.kind = "biht" /\ it < 4 /\ NMiss(Miss(item.y, item.A, x)) > 0
        /\ x' \in Succ(item.A, item.y, x, item.K, item.tau) /\ it' = it + 1 /\ UNCHANGED item
Out == /\ it = 0 /\ it' = 99 /\ UNCHANGED <<item, x>> /\ (Emit => PrintT(<<"CASE", ToJson(item)>>))
Next == Step \/ Out
Spec == Init /\ [][Next]_vars
Sparse == item.kind = "biht" => Cardinality({i \in 1..4 : x[i] # 0}) <= item.K
(* the measurement map depends on directions only *)
SignOnly == item.kind = "measure" => \A c \in 1..4 : SgnV(MatVec(item.A, VScale(c, item.x))) = SgnV(MatVec(item.A, item.x))
(* the step direction is a descent direction of the one-sided l1 cost sum_i [-y_i (A x)_i]_+ : it never points uphill *)
OneSided(z) == LET u == MatVec(item.A, z) IN SumS([i \in 1..5 |-> Max2(0, -(item.y[i] * u[i]))])
Downhill == (item.kind = "biht" /\ it < 99) =>
   LET r == Miss(item.y, item.A, x)  h == MatTVec(item.A, r) IN
   \* directional derivative along h, at points where no measurement is exactly zero
   (\A i \in 1..5 : MatVec(item.A, x)[i] # 0) =>
     SumS([i \in 1..5 |-> IF r[i] # 0 THEN -(item.y[i] * MatVec(item.A, h)[i]) ELSE 0]) <= 0
=============================================================================
