------------------------------ MODULE Wavelet ------------------------------
(* Orthogonal periodised wavelet transforms as explicit maps on fixed point   *)
(* vectors (scale 5040).  Scaling filters of the supported test wavelets.      *)
EXTENDS Lin
WS == 5040
Lo(w) == CASE w = "haar" -> <<3564, 3564>> [] w = "db2" -> <<-652, 1130, 4216, 2434>> [] w = "db3" -> <<178, -431, -680, 2318, 4067, 1677>> [] w = "db4" -> <<-53, 166, 155, -943, -141, 3180, 3603, 1161>> [] w = "sym4" -> <<-382, -149, 2508, 4051, 1501, -500, -64, 162>> [] w = "coif1" -> <<-79, -367, 1940, 4297, 1703, -367>>
Hi(w) == LET lo == Lo(w)  L == Len(lo) IN
   [j \in 1..L |-> IF j % 2 = 1 THEN -lo[L + 1 - j] ELSE lo[L + 1 - j]]
(* one analysis level with filter f on a periodic signal x: half the length *)
Half(x, f) == LET n == Len(x)  L == Len(f) IN
   TLCEval([k \in 1..(n \div 2) |->
      SumS([j \in 1..L |-> FMul(f[j], x[((((2 * (k - 1) + (L \div 2) - (j - 1)) % n) + n) % n) + 1], WS)])])
RECURSIVE Dwt(_, _, _)
Dwt(x, w, level) == IF level = 0 THEN x
   ELSE LET a == Half(x, Lo(w))  d == Half(x, Hi(w)) IN Dwt(a, w, level - 1) \o d
RECURSIVE Pow2Ge(_, _)
Pow2Ge(n, p) == IF p >= n THEN p ELSE Pow2Ge(n, 2 * p)
NextPow2(n) == Pow2Ge(n, 1)
PadTo(x, m) == [i \in 1..m |-> IF i <= Len(x) THEN x[i] ELSE 0]
(* column j of the (m x n) transform matrix, m = next power of two *)
DwtCol(n, w, level, j) == Dwt(PadTo([i \in 1..n |-> IF i = j THEN WS ELSE 0], NextPow2(n)), w, level)
(* 2-D: the leading h x w block is transformed along both directions at each level *)
RECURSIVE Dwt2(_, _, _, _, _)
Dwt2(X, w, level, h, ww) ==
  IF level = 0 THEN X
  ELSE LET (* along the first axis *)
           C1 == TLCEval([c \in 1..ww |-> LET col == [r \in 1..h |-> X[r][c]] IN Half(col, Lo(w)) \o Half(col, Hi(w))])
           (* along the second axis *)
           R1 == TLCEval([r \in 1..h |-> LET row == [c \in 1..ww |-> C1[c][r]] IN Half(row, Lo(w)) \o Half(row, Hi(w))])
           Y == TLCEval([r \in 1..Len(X) |-> [c \in 1..Len(X[1]) |-> IF r <= h /\ c <= ww THEN R1[r][c] ELSE X[r][c]]])
       IN Dwt2(Y, w, level - 1, h \div 2, ww \div 2)
=============================================================================
