------------------------------ MODULE SscGen --------------------------------
EXTENDS Ssc, Json
CONSTANTS Deep, Emit
(* integer vectors of integer length *)
Pool == << <<1, 2, 2>>, <<2, 1, -2>>, <<2, -2, 1>>, <<3, 4, 0>>, <<4, -3, 0>>, <<0, 3, 4>>, <<2, 3, 6>>, <<-6, 2, 3>>, <<3, -6, 2>>, <<1, 4, 8>>, <<4, 4, 7>>, <<-1, 0, 0>>, <<2, 6, 9>>, <<0, -5, 12>>, <<0, 0, 3>>, <<6, -2, 9>>, <<-4, 7, 4>> >>
Pick(a, b, n) == [i \in 1..n |-> Pool[((a * i + b * i * i + a + b) % Len(Pool)) + 1]]
Distinct(s) == \A i, j \in 1..Len(s) : i < j => IDot(s[i], s[j]) * IDot(s[i], s[j]) # IDot(s[i], s[i]) * IDot(s[j], s[j])
Clouds(n) == {c \in {Pick(a, b, n) : a \in 1..16, b \in 0..(IF Deep THEN 8 ELSE 2)} : Distinct(c)}
Dup == {<< <<1, 2, 2>>, <<1, 2, 2>>, <<3, 4, 0>>, <<4, 4, 7>> >>, << <<3, 4, 0>>, <<2, 1, -2>>, <<-3, -4, 0>>, <<3, 4, 0>>, <<0, 0, 3>> >>}
Orth == {<< <<1, 0, 0>>, <<0, 2, 0>>, <<0, 0, 3>> >>, << <<1, 2, 2>>, <<2, 1, -2>>, <<2, -2, 1>> >>}
Reps == {[kind |-> "rep", pts |-> c, K |-> k, bs |-> b] : c \in Clouds(5) \cup Clouds(7), k \in 1..2, b \in {2, 3, 5}}
   \cup {[kind |-> "rep", pts |-> c, K |-> 1, bs |-> b] : c \in Orth \cup Dup, b \in {1, 2, 3}}
Angles == {[kind |-> "angles", pts |-> c] : c \in Clouds(5) \cup Clouds(7) \cup Dup \cup Orth}
Splits == {<<2, 3>>, <<3, 2>>, <<2, 2, 3>>, <<3, 4>>, <<4, 3>>, <<5, 2>>}
Neigh == {[kind |-> "neigh", pts |-> c, sz |-> s] : c \in Clouds(5) \cup Clouds(7), s \in {t \in Splits : TRUE}}
(* representation matrices: values in tenths; index lists of K distinct other points *)
LabelSets == {<<0, 0, 1, 1>>, <<0, 1, 0, 1>>, <<0, 0, 0, 1>>, <<2, 1, 0, 1>>}
Next4(j, s) == ((j + s - 1) % 4) + 1
Forms == {[kind |-> "form", lab |-> l, I |-> [r \in 1..2 |-> [j \in 1..4 |-> Next4(j, IF r = 1 THEN s ELSE (s % 3) + 1) - 1]],
            Z |-> [r \in 1..2 |-> [j \in 1..4 |-> ((r * 7 + j * 3 + z * 5) % 11) - (IF r = 1 THEN 5 ELSE 3)]]] :
            l \in LabelSets, s \in 1..3, z \in 0..(IF Deep THEN 20 ELSE 6)}
(* the same with values in ten-thousandths, some of them too small to count as belonging to the representation (below 1e-3) *)
Smalls == {[kind |-> "small", lab |-> f.lab, I |-> f.I, Z |-> [r \in 1..2 |-> [j \in 1..4 |-> IF f.Z[r][j] % 2 = 0 THEN 1000 * f.Z[r][j] + 500 ELSE f.Z[r][j]]]] : f \in Forms}
Items == {i \in Smalls : TRUE} \cup {i \in Reps \cup Angles \cup Forms : TRUE} \cup {i \in Neigh : SumS(i.sz) = Len(i.pts)}
VARIABLES item, done
Init == item \in Items /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED item /\ (Emit => PrintT(<<"CASE", ToJson(item)>>))
Spec == Init /\ [][Next]_<<item, done>>
IntegerLengths == "pts" \in DOMAIN item => \A i \in 1..Len(item.pts) : LET p == item.pts[i] IN Nrm(p) * Nrm(p) = IDot(p, p)
(* every angle order is a total preorder *)
Order == item.kind = "neigh" => \A i, j, k \in 1..Len(item.pts) : NotFarther(item.pts[i], item.pts[j], item.pts[k]) \/ NotFarther(item.pts[i], item.pts[k], item.pts[j])
SelfNearest == "pts" \in DOMAIN item => \A i, j \in 1..Len(item.pts) : NotFarther(item.pts[i], item.pts[i], item.pts[j])
Valid == item.kind \in {"form", "small"} => \A j \in 1..4 : item.I[1][j] # item.I[2][j] /\ item.I[1][j] # j - 1 /\ item.I[2][j] # j - 1
(* no generated coefficient is near the threshold *)
Clear == item.kind = "small" => \A r \in 1..2, j \in 1..4 : Abs(item.Z[r][j]) <= 8 \/ Abs(item.Z[r][j]) >= 100
=============================================================================
