------------------------------ MODULE DictGen -------------------------------
EXTENDS Dict, Json
CONSTANTS Deep, Emit
Z(m, n) == Mat(m, n, LAMBDA i, j : 0)
Real(M) == [re |-> M, im |-> Z(Len(M), Cols(M))]
(* unimodular dictionaries: entries +-1, or +-1 +-i, chosen by a mixing rule *)
Bit(s, i, j) == ((s * (i + 2 * j) + i * j * (s + 1) + (s \div 3) * j * j) % 7) < 3
SignD(m, n, s) == Real(Mat(m, n, LAMBDA i, j : IF Bit(s, i, j) THEN 1 ELSE -1))
PhaseD(m, n, s) == [re |-> Mat(m, n, LAMBDA i, j : IF Bit(s, i, j) THEN (IF Bit(s + 1, j, i) THEN 1 ELSE -1) ELSE 0),
                    im |-> Mat(m, n, LAMBDA i, j : IF Bit(s, i, j) THEN 0 ELSE (IF Bit(s + 2, j, i) THEN 1 ELSE -1))]
QPhase(m, n, s) == [re |-> Mat(m, n, LAMBDA i, j : IF Bit(s, i, j) THEN 1 ELSE -1), im |-> Mat(m, n, LAMBDA i, j : IF Bit(s + 3, j, i) THEN 1 ELSE -1)]
Seeds == IF Deep THEN 1..8 ELSE 1..4
Shapes == {<<2, 3>>, <<3, 5>>, <<4, 4>>, <<4, 6>>}
Dicts == UNION {{SignD(h[1], h[2], s), PhaseD(h[1], h[2], s), QPhase(h[1], h[2], s)} : h \in Shapes, s \in Seeds}
Props == {[kind |-> "props", A |-> A] : A \in Dicts}
Mutual == {[kind |-> "mutual", A |-> A, B |-> B] : A \in UNION {{SignD(3, 4, s), PhaseD(3, 4, s), QPhase(3, 4, s)} : s \in Seeds}, B \in {SignD(3, 5, 2), PhaseD(3, 5, 3), QPhase(3, 2, 1)}}
(* unit atoms over 5, up to phase: (3,4), (4,3), (5,0), ... *)
At(c) == CASE c = 1 -> <<3, 4, 0, 0>> [] c = 2 -> <<-4, 3, 0, 0>> [] c = 3 -> <<5, 0, 0, 0>> [] c = 4 -> <<0, 3, 4, 0>> [] c = 5 -> <<-3, -4, 0, 0>> [] c = 6 -> <<3, 0, 0, 4>> [] c = 7 -> <<0, 0, -3, -4>> [] c = 8 -> <<4, 3, 0, 0>>
Atoms(cs) == [re |-> Mat(2, Len(cs), LAMBDA i, j : At(cs[j])[i]), im |-> Mat(2, Len(cs), LAMBDA i, j : At(cs[j])[2 + i])]
Match == {[kind |-> "match", A |-> Atoms(a), B |-> Atoms(b), th |-> t] : a \in {<<1, 2>>, <<3, 4, 5>>, <<6, 1, 7>>, <<8, 3>>}, b \in {<<5, 2, 1>>, <<3, 8>>, <<4, 6, 2, 7>>, <<7, 1>>}, t \in {1, 10, 30}}
Struct == {[kind |-> "had", n |-> n] : n \in {1, 2, 4, 8}} \cup {[kind |-> "cos", n |-> n] : n \in {1, 2, 3, 4, 5, 6, 8, 10}} \cup {[kind |-> "fou", n |-> n] : n \in {1, 2, 3, 4, 5, 6, 8}}
          \cup {[kind |-> "wav", n |-> n, name |-> w, level |-> l] : n \in {8, 16}, w \in {"haar", "db2", "sym4"}, l \in {1, 2, 3, 99}}
WavOK(d) == d.kind # "wav" \/ (d.level = 99 \/ d.level <= (CASE d.name = "haar" -> (IF d.n = 8 THEN 3 ELSE 4) [] d.name = "db2" -> (IF d.n = 8 THEN 1 ELSE 2) [] d.name = "sym4" -> (IF d.n = 8 THEN 0 ELSE 1)))
Rand == {[kind |-> "rand", f |-> f, m |-> h[1], n |-> h[2], k |-> k, norm |-> nm, key |-> y] : f \in {"gauss", "rade", "binary", "onb", "rows"}, h \in {<<4, 6>>, <<6, 6>>, <<8, 20>>, <<3, 7>>}, k \in {1, 2, 3}, nm \in {0, 1}, y \in (IF Deep THEN 0..5 ELSE 0..1)}
RandOK(d) == d.kind # "rand" \/ ((d.f = "binary" \/ d.k = 1) /\ (d.f \in {"gauss", "rade", "binary"} \/ d.norm = 0) /\ (d.f # "onb" \/ d.m = d.n))
Grass == {[kind |-> "grass", m |-> h[1], n |-> h[2], key |-> y] : h \in {<<3, 6>>, <<4, 8>>, <<5, 7>>, <<3, 4>>}, y \in 0..1}
Items == {d \in Props \cup Mutual \cup Match \cup Struct \cup Rand \cup Grass : WavOK(d) /\ RandOK(d)}
VARIABLES item, p
vars == <<item, p>>
Init == item \in Items /\ p = 0
Grow == item.kind = "props" /\ p < NAt(item.A) - 1 /\ p' = p + 1 /\ UNCHANGED item
Out == p = 0 /\ p' = 99 /\ UNCHANGED item /\ (Emit => PrintT(<<"CASE", ToJson(item)>>))
Next == Grow \/ Out
Spec == Init /\ [][Next]_vars
(* facts the implementation's shortcut relies on *)
TopSum(row, i, k) == LET s == SortSeq(SelectSeq([t \in 1..Len(row) |-> IF t = i THEN -1 ELSE row[t]], LAMBDA v : v >= 0), LAMBDA a, b : a > b) IN SumS(SubSeq(s, 1, k))
BabelShort == (item.kind = "props" /\ p \in 1..20) => LET G == AbsGram(item.A, item.A) IN BabelDef(G, p) = Max({TopSum(G[i], i, p) : i \in 1..Len(G)})
CoherenceIsBabel1 == item.kind = "props" => LET G == AbsGram(item.A, item.A) IN BabelDef(G, 1) = CohOf(G)
BabelGrows == (item.kind = "props" /\ p \in 2..20) => LET G == AbsGram(item.A, item.A) IN BabelDef(G, p) >= BabelDef(G, p - 1) /\ BabelDef(G, p) <= p * CohOf(G)
Welch == item.kind = "props" => LET m == Len(item.A.re)  n == NAt(item.A)  c == CohOf(AbsGram(item.A, item.A)) \div 10  e == AbsGram(item.A, item.A)[1][1] \div 10 IN
           n > m => (c + 1) * (c + 1) * m * (n - 1) >= e * e * (n - m)
HadOrtho == item.kind = "had" => MatMul(Had(item.n), Transp(Had(item.n))) = Mat(item.n, item.n, LAMBDA i, j : IF i = j THEN item.n ELSE 0)
=============================================================================
