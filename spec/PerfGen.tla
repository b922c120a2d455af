------------------------------ MODULE PerfGen -------------------------------
EXTENDS Perf, Json
CONSTANTS Deep, Emit
Phi == << <<1, 2, 0, -1, 1>>, <<0, 1, 1, 2, -1>>, <<1, -1, 2, 0, 1>> >>
Phi2 == << <<1, 0, 0, 0, 0>>, <<0, 2, 0, 0, 0>>, <<0, 0, 0, 1, 1>> >>
Xs == {<<32, 0, 0, 0, 0>>, <<0, 48, 0, -32, 0>>, <<80, 0, -16, 0, 64>>, <<0, 0, 16, 80, 0>>, <<64, -64, 80, 0, 16>>, <<-48, 32, 64, 80, 16>>, <<64, 48, 0, 80, -32>>}
Es == {<<0, 0, 0, 0, 0>>, <<1, 0, 0, 0, 0>>, <<0, 1, -1, 0, 0>>, <<-2, 1, 0, 0, 1>>, <<0, 0, 40, 0, -3>>, <<0, 0, 0, 0, 90>>, <<-33, 5, 0, 24, 0>>, <<2, 2, 2, -2, 2>>, <<0, -49, 0, 0, 0>>}
   \cup (IF Deep THEN [1..5 -> {-17, 0, 3}] ELSE {})
Ns == {<<0, 0, 0>>, <<1, -2, 0>>, <<16, 0, 5>>}
Forms == {"x_hat", "sol_x", "sol_I"}
Reports == {[kind |-> "report", Phi |-> P, x |-> x, e |-> e, nz |-> nz, form |-> f, oper |-> o] :
              P \in {Phi, Phi2}, x \in Xs, e \in Es, nz \in (IF Deep THEN {<<0, 0, 0>>} ELSE Ns), f \in Forms, o \in BOOLEAN}
Hash3(r) == Abs(Dot(r.x, <<1, 3, 5, 7, 11>>) + 5 * Dot(r.e, <<2, 3, 5, 7, 13>>) + 7 * SumS(r.nz)) + Len(r.form) + (IF r.oper THEN 3 ELSE 0) + r.Phi[1][2]
Thin == {r \in Reports : (Hash3(r) % (IF Deep THEN 8 ELSE 5)) = 0}
Trials == {[kind |-> "trials", ks |-> ks, nd |-> nd, ns |-> ns, bad |-> b, solvers |-> q] :
             ks \in {<<1>>, <<1, 2>>, <<3, 1, 2>>}, nd \in 1..2, ns \in 1..3, b \in {<<>>, <<1>>, <<2, 3>>}, q \in {1}}
       \cup {[kind |-> "trials", ks |-> <<2, 1>>, nd |-> 1, ns |-> 2, bad |-> <<2>>, solvers |-> 2]}
(* scripted tracker calls: stride, calls with state iterations from..to, final flagged *)
Tracks == {[kind |-> "track", every |-> ev, from |-> f, to |-> t, form |-> fm, snr |-> s] :
             ev \in 1..4, f \in 0..1, t \in {1, 4, 7}, fm \in {"x_r", "xI_r2", "x_r2", "z_r"}, s \in BOOLEAN}
Solvers == {[kind |-> "solver", algo |-> a, max |-> m, p |-> p] : a \in {"mp", "mp_matrix", "sp", "cosamp", "spgl1_lasso"}, m \in {1, 2, 5}, p \in 1..(IF Deep THEN 6 ELSE 2)}
Items == Thin \cup Trials \cup Tracks \cup Solvers
VARIABLES item, calls, shown, phase
vars == <<item, calls, shown, phase>>
Init == item \in Items /\ calls = <<>> /\ shown = <<>> /\ phase = "start"
(* the tracker protocol: one call per iteration, the last one flagged; every stride-th and the final are shown *)
Call == /\ item.kind = "track" /\ phase = "start"
        /\ \E it \in {item.from + Len(calls)} : LET more == it < item.to IN
             /\ calls' = Append(calls, it)
             /\ shown' = IF it % item.every = 0 \/ ~more THEN Append(shown, it) ELSE shown
             /\ phase' = IF more THEN "start" ELSE "done"
        /\ UNCHANGED item
Out == /\ phase = (IF item.kind = "track" THEN "done" ELSE "start") /\ phase' = "out" /\ UNCHANGED <<item, calls, shown>>
       /\ (Emit => PrintT(<<"CASE", ToJson(IF item.kind = "track" THEN [x \in (DOMAIN item) \cup {"calls", "shown"} |->
               IF x = "calls" THEN calls ELSE IF x = "shown" THEN shown ELSE item[x]] ELSE item)>>))
Next == Call \/ Out
Spec == Init /\ [][Next]_vars
(* the final iteration is always shown, and nothing is shown twice *)
FinalShown == phase = "done" => shown[Len(shown)] = item.to /\ Cardinality({shown[i] : i \in 1..Len(shown)}) = Len(shown)
(* logarithm sanity: exact at powers of two, additive *)
LogSane == /\ Log2(8, 1) = 3 * 2048 /\ Log2(1, 4) = -2 * 2048 /\ Near(DeciBel(1000, 1), 3000, 2)
           /\ item.kind = "report" => LET a == SqS(item.x)  b == SqS(item.e) IN b > 0 => Near(Log2(a, b) + Log2(b, a), 0, 6)
(* perfect recovery is a success *)
PerfectIsSuccess == item.kind = "report" /\ SqS(item.e) = 0 => Success(item.x, item.x, Cardinality(Supp(item.x)))
=============================================================================
