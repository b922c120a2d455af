------------------------------- MODULE LopAlg -------------------------------
(* Operator algebra as a two register machine over Gaussian integer matrices.  *)
(* A value is [m, n, re, im, real, linear, jit, mat]: the matrix the operator   *)
(* stands for and the capabilities its constituents really have.                *)
EXTENDS LopSem
ISC(M) == TLCEval([i \in 1..Len(M) |-> [j \in 1..Len(M[i]) |-> M[i][j] \div SC]])
CVal(d) == IF d.k = "custom"
           THEN [m |-> Len(d.A), n |-> Len(d.A[1]), re |-> d.A, im |-> d.Ai, real |-> d.real, linear |-> d.linear, jit |-> d.jit, mat |-> d.mat]
           ELSE [m |-> Rows(d), n |-> NCols(d), re |-> ISC(RowsRe(d)), im |-> ISC(RowsIm(d)),
                 real |-> ~d.cplx, linear |-> TRUE, jit |-> TRUE, mat |-> d.mat]
(* ------------------------------------------------ complex matrix algebra *)
MMap2(A, A2, F(_, _)) == TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(A[i]) |-> F(A[i][j], A2[i][j])]])
CT(v, sgn) == [v EXCEPT !.m = v.n, !.n = v.m, !.re = Transp(v.re),
                        !.im = TLCEval([j \in 1..v.n |-> [i \in 1..v.m |-> sgn * v.im[i][j]]])]
Flags(a, b) == [a EXCEPT !.real = a.real /\ b.real, !.linear = a.linear /\ b.linear, !.jit = a.jit /\ b.jit, !.mat = a.mat /\ b.mat]
CScale(v, r, s) == [v EXCEPT !.re = MMap2(v.re, v.im, LAMBDA x, y : r * x - s * y),
                             !.im = MMap2(v.re, v.im, LAMBDA x, y : r * y + s * x), !.real = v.real /\ s = 0]
CAdd(a, b, s) == [Flags(a, b) EXCEPT !.re = MMap2(a.re, b.re, LAMBDA x, y : x + s * y), !.im = MMap2(a.im, b.im, LAMBDA x, y : x + s * y)]
CMul(a, b) == LET f == Flags(a, b)
                  rr == MatMul(a.re, b.re)  ii == MatMul(a.im, b.im)  ri == MatMul(a.re, b.im)  ir == MatMul(a.im, b.re)
              IN [f EXCEPT !.m = a.m, !.n = b.n, !.re = MMap2(rr, ii, LAMBDA x, y : x - y), !.im = MMap2(ri, ir, LAMBDA x, y : x + y)]
IdOf(v) == [v EXCEPT !.re = Mat(v.n, v.n, LAMBDA i, j : IF i = j THEN 1 ELSE 0), !.im = Mat(v.n, v.n, LAMBDA i, j : 0)]
RECURSIVE CPow(_, _)
CPow(v, p) == IF p = 0 THEN IdOf(v) ELSE CMul(v, CPow(v, p - 1))
CHcat(a, b) == [Flags(a, b) EXCEPT !.n = a.n + b.n,
   !.re = TLCEval([i \in 1..a.m |-> a.re[i] \o b.re[i]]), !.im = TLCEval([i \in 1..a.m |-> a.im[i] \o b.im[i]])]
BDPart(A, A2, ma, na, mb, nb) == Mat(ma + mb, na + nb, LAMBDA i, j :
   IF i <= ma THEN (IF j <= na THEN A[i][j] ELSE 0) ELSE (IF j > na THEN A2[i - ma][j - na] ELSE 0))
CBlock(a, b) == [Flags(a, b) EXCEPT !.m = a.m + b.m, !.n = a.n + b.n,
   !.re = BDPart(a.re, b.re, a.m, a.n, b.m, b.n), !.im = BDPart(a.im, b.im, a.m, a.n, b.m, b.n)]
(* picks, perm are sequences of 0-based indices; perm = <<>> means none:  y = (A x[perm])[picks] *)
PartCol(perm, n, j) == IF perm = <<>> THEN j ELSE CHOOSE t \in 1..n : perm[t] = j - 1   \* column j of the result uses column t of A
CPart(v, picks, perm) == [v EXCEPT !.m = Len(picks),
   !.re = Mat(Len(picks), v.n, LAMBDA i, j : v.re[picks[i] + 1][PartCol(perm, v.n, j)]),
   !.im = Mat(Len(picks), v.n, LAMBDA i, j : v.im[picks[i] + 1][PartCol(perm, v.n, j)])]
(* windowed: T applied to successive blocks of the input, results overlap-added and cut to length mm *)
WBlocks(w, mm, ov) == LET off == w - ov  q == mm - w IN
   IF q <= 0 THEN 1 ELSE ((q + off - 1) \div off) + 1
WEnt(M, w, tn, ov, i, j) == LET blk == (j - 1) \div tn  r == i - blk * (w - ov) IN
   IF r >= 1 /\ r <= w THEN M[r][((j - 1) % tn) + 1] ELSE 0
CWindow(v, mm, ov) == LET nb == WBlocks(v.m, mm, ov) IN
   [v EXCEPT !.m = mm, !.n = nb * v.n,
     !.re = Mat(mm, nb * v.n, LAMBDA i, j : WEnt(v.re, v.m, v.n, ov, i, j)),
     !.im = Mat(mm, nb * v.n, LAMBDA i, j : WEnt(v.im, v.m, v.n, ov, i, j))]
(* ------------------------------------------------ one step of a program *)
Step(s, st) ==      \* s = <<a, b>>
  LET a == s[1]  b == s[2] IN
  CASE st.op = "neg" -> <<CScale(a, -1, 0), b>>
    [] st.op = "scale" -> <<CScale(a, st.re, st.im), b>>
    [] st.op \in {"adjoint", "hermitian"} -> <<CT(a, -1), b>>
    [] st.op = "transpose" -> <<CT(a, 1), b>>
    [] st.op = "power" -> <<CPow(a, st.p), b>>
    [] st.op = "gram" -> <<CMul(CT(a, -1), a), b>>
    [] st.op = "frame" -> <<CMul(a, CT(a, -1)), b>>
    [] st.op = "jit" -> <<a, b>>
    [] st.op = "partial" -> <<CPart(a, st.picks, st.perm), b>>
    [] st.op = "add" -> <<CAdd(a, b, 1), b>>
    [] st.op = "sub" -> <<CAdd(a, b, -1), b>>
    [] st.op = "compose" -> <<CMul(a, b), b>>
    [] st.op = "hcat" -> <<CHcat(a, b), b>>
    [] st.op = "block" -> <<CBlock(a, b), b>>
    [] st.op = "block3" -> <<CBlock(CBlock(a, b), a), b>>
    [] st.op = "window" -> <<CWindow(a, st.m, st.ov), b>>
    [] st.op = "swap" -> <<b, a>>
    [] st.op = "dup" -> <<a, a>>
MaxEnt(v) == MaxAbs([i \in 1..v.m |-> Max2(MaxAbs(v.re[i]), MaxAbs(v.im[i]))])
Rot(n) == [i \in 1..n |-> i % n]
Rev(n) == [i \in 1..n |-> n - i]
If1(c, s) == IF c THEN s ELSE <<>>
(* all steps that may be applied in a state, as a sequence *)
Enabled(s) ==
  LET a == s[1]  b == s[2]
      small == a.m <= 4 /\ a.n <= 4
      bsmall == b.m <= 4 /\ b.n <= 4
      U(o) == [op |-> o]
  IN <<U("neg"), U("adjoint"), U("hermitian"), U("transpose"), U("swap"), U("dup"), U("gram"), U("frame"),
       [op |-> "scale", re |-> 2, im |-> 0], [op |-> "scale", re |-> 1, im |-> -2], [op |-> "scale", re |-> 0, im |-> 1]>>
     \o If1(a.jit, <<U("jit")>>)
     \o If1(a.m = a.n, <<[op |-> "power", p |-> 0], [op |-> "power", p |-> 1]>>)
     \o If1(a.m = a.n /\ MaxEnt(a) <= 40, <<[op |-> "power", p |-> 2]>>)
     \o If1(a.m = a.n /\ MaxEnt(a) <= 12, <<[op |-> "power", p |-> 3]>>)
     \o <<[op |-> "partial", picks |-> Rev(a.m), perm |-> <<>>], [op |-> "partial", picks |-> <<a.m - 1>>, perm |-> Rot(a.n)],
          [op |-> "partial", picks |-> Rot(a.m), perm |-> Rot(a.n)]>>
     \o If1(a.m = b.m /\ a.n = b.n, <<U("add"), U("sub")>>)
     \o If1(a.n = b.m, <<U("compose")>>)
     \o If1(a.m = b.m /\ small /\ bsmall, <<U("hcat")>>)
     \o If1(small /\ bsmall /\ a.jit /\ b.jit, <<U("block"), U("block3")>>)
     \o If1(small /\ a.jit /\ a.linear, <<[op |-> "window", m |-> a.m, ov |-> 0], [op |-> "window", m |-> a.m + 1, ov |-> 0]>>
                      \o If1(a.m >= 2, <<[op |-> "window", m |-> a.m + 2, ov |-> 1], [op |-> "window", m |-> a.m + 1, ov |-> 1]>>))
Fits(s) == MaxEnt(s[1]) <= 3000 /\ s[1].m <= 8 /\ s[1].n <= 12
(* ------------------------------------------------ leaf operators *)
M22 == <<<<1, 2>>, <<-1, 3>>>>
M22i == <<<<0, 1>>, <<2, -1>>>>
Z22 == <<<<0, 0>>, <<0, 0>>>>
Z23 == <<<<0, 0, 0>>, <<0, 0, 0>>>>
Z32 == <<<<0, 0>>, <<0, 0>>, <<0, 0>>>>
MX(A, Ai, c, ax) == [k |-> "matrix", n |-> Len(A[1]), A |-> A, Ai |-> Ai, cplx |-> c, axis |-> ax, mat |-> ax = 0]
CU(A, Ai, rl, li, ji, ma) == [k |-> "custom", n |-> Len(A[1]), A |-> A, Ai |-> Ai, real |-> rl, linear |-> li, jit |-> ji, mat |-> ma, cplx |-> ~rl]
Leaves == <<
  MX(M22, Z22, FALSE, 0), MX(M22, M22i, TRUE, 0),
  MX(<<<<1, 0, -2>>, <<3, 1, 1>>>>, Z23, FALSE, 0), MX(<<<<1, 0, -2>>, <<3, 1, 1>>>>, <<<<0, 1, 1>>, <<-2, 0, 1>>>>, TRUE, 0),
  MX(<<<<2, 1>>, <<0, -1>>, <<1, 3>>>>, Z32, FALSE, 0),
  MX(<<<<1, 2, 0>>, <<0, 1, -1>>, <<2, 0, 1>>>>, <<<<0, 1, 0>>, <<1, 0, 0>>, <<0, 0, -1>>>>, TRUE, 0),
  [k |-> "flipud", n |-> 3, axis |-> 0, cplx |-> FALSE, mat |-> TRUE],
  [k |-> "diagonal", n |-> 2, v |-> <<1, -2>>, vi |-> <<2, 1>>, axis |-> 0, cplx |-> TRUE, mat |-> TRUE],
  [k |-> "restriction", n |-> 3, I |-> <<2, 0>>, axis |-> 0, cplx |-> FALSE, mat |-> TRUE],
  [k |-> "cumsum", n |-> 3, axis |-> 0, cplx |-> FALSE, mat |-> TRUE],
  [k |-> "sum", n |-> 2, axis |-> 0, cplx |-> FALSE, mat |-> TRUE],
  CU(<<<<1, -1>>, <<2, 1>>>>, Z22, TRUE, TRUE, FALSE, TRUE),
  CU(<<<<2, 1>>, <<1, 0>>>>, M22i, FALSE, TRUE, TRUE, FALSE),
  CU(<<<<0, 1>>, <<3, 1>>>>, Z22, TRUE, FALSE, TRUE, TRUE) >>
Meaning(ia, ib, prog) == FoldLeft(LAMBDA acc, st : Step(acc, st), <<CVal(Leaves[ia]), CVal(Leaves[ib])>>, prog)[1]
=============================================================================
