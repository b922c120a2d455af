-------------------------------- MODULE Prob --------------------------------
(* Named recovery problems: b = Phi y, y = Psi x, A = Phi Psi.  Scale PS.      *)
EXTENDS Lin, Trig
PS == 1000
(* shapes <<rows, columns>> of sensing, dictionary; lengths of b, y and x *)
DictCols(name, n, o) == CASE name \in {"heavisine", "cosspikes", "sinspikes", "cosgauss"} -> 2 * n [] OTHER -> n
Rows(name, n, m) == IF name \in {"cosgauss", "poly", "spikes", "cspikes", "gspikes"} THEN m ELSE n
RoundScale(v, s) == LET t == v * s  q == t \div 1000  r == t % 1000 IN Max2(1, IF 2 * r > 1000 THEN q + 1 ELSE IF 2 * r < 1000 THEN q ELSE IF q % 2 = 0 THEN q ELSE q + 1)
(* reference signals *)
Sgn(a) == IF a > 0 THEN 1 ELSE IF a < 0 THEN -1 ELSE 0
HeaviSine(n) == [i \in 1..n |-> ((4 * SinF(2 * i, n) * 100) \div 504) + PS * (Sgn(100 * i - 30 * n) - Sgn(72 * n - 100 * i))]
BPos == <<10, 13, 15, 23, 25, 40, 44, 65, 76, 78, 81>>
BHgt == <<40, -50, 30, -40, 50, -42, 21, 43, -31, 21, -42>>       \* tenths
Blocks(n) == [i \in 1..n |-> SumS([j \in 1..11 |-> (1 + Sgn(100 * i - BPos[j] * n)) * BHgt[j] * 50])]
Diff(v) == [i \in 1..Len(v) |-> IF i = 1 THEN v[1] ELSE v[i] - v[i - 1]]
Count(v, lo, hi) == Cardinality({i \in lo..hi : v[i] # 0})
D4(v, i) == v[i] - 4 * v[i + 1] + 6 * v[i + 2] - 4 * v[i + 3] + v[i + 4]
=============================================================================
