------------------------------ MODULE LopTrace ------------------------------
(* Judges recorded behaviour of real operators.                               *)
(*  AdjClauses : linearity, adjointness, stacking, jit                (P01)    *)
(*  SemClauses : the operator is the documented matrix                (P03)    *)
(*  FlagClauses: attributes do not over-claim                         (P05)    *)
EXTENDS LopSem, TraceBase
T1 == 4                                    \* units of 1/5040
ShapeOK(M, m, n) == Len(M.re) = m /\ Len(M.im) = m
   /\ \A i \in 1..m : Len(M.re[i]) = n /\ Len(M.im[i]) = n
CNear(u, v, tol) == VNear(u.re, v.re, tol) /\ VNear(u.im, v.im, tol)
CMNear(A, B2, tol) == MNear(A.re, B2.re, tol) /\ MNear(A.im, B2.im, tol)
(* complex matrix (fixed point) times an integer complex vector *)
CMV(M, xr, xi) == [re |-> TLCEval([i \in 1..Len(M.re) |-> Dot(M.re[i], xr) - Dot(M.im[i], xi)]),
                   im |-> TLCEval([i \in 1..Len(M.re) |-> Dot(M.re[i], xi) + Dot(M.im[i], xr)])]
L1(x) == SumS([i \in 1..Len(x) |-> Abs(x[i])])
Fin(M) == MFinite(M.re) /\ MFinite(M.im)
VFin(u) == VFinite(u.re) /\ VFinite(u.im)
(* is the recorded event structurally complete? *)
Declared(ev) == ev.fm = <<ev.m, ev.n>> /\ ev.am = <<ev.n, ev.m>>
   /\ ShapeOK(ev.fwd, ev.m, ev.n) /\ ShapeOK(ev.adj, ev.n, ev.m)
   /\ ev.isz = ev.n /\ ev.osz = ev.m /\ ev.ind = ev.ilen /\ ev.ond = ev.olen
Dag(M) == [re |-> Transp(M.re), im |-> TLCEval([j \in 1..Cols(M.im) |-> [i \in 1..Len(M.im) |-> -M.im[i][j]]])]
StkOK(M, X, Xi, Y, shp, m) == /\ shp = <<m, Len(X)>>
                          /\ Len(Y) = Len(X)
                          /\ \A c \in 1..Len(X) : CNear(Y[c], CMV(M, X[c], Xi[c]), T1 + L1(X[c]) + L1(Xi[c]))
AdjClauses(ev) ==
  IF ev.exc # "" THEN {"exception"}
  ELSE IF ~Declared(ev) THEN {"shape"}
  ELSE IF ~(Fin(ev.fwd) /\ Fin(ev.adj)) THEN {"finite"}
  ELSE (IF CMNear(ev.adj, Dag(ev.fwd), T1) THEN {}
        ELSE IF CMNear(ev.adj, [re |-> Transp(ev.fwd.re), im |-> Transp(ev.fwd.im)], T1) THEN {"adjoint-unconjugated"}
        ELSE {"adjoint"})
    \cup C("linear-times", ev.ysh /\ CNear(ev.y, CMV(ev.fwd, ev.xr, ev.xi), T1 + L1(ev.xr) + L1(ev.xi)))
    \cup C("linear-trans", ev.vsh /\ CNear(ev.v, CMV(ev.adj, ev.ur, ev.ui), T1 + L1(ev.ur) + L1(ev.ui)))
    \cup C("adjoint-matrix", CMNear(ev.ta, ev.adj, T1))
    \cup C("jit", CNear(ev.yj, ev.y, T1 * 2) /\ CNear(ev.vj, ev.v, T1 * 2))
    \cup (IF ev.stk THEN C("stack-times", StkOK(ev.fwd, ev.sX, ev.sXi, ev.sY, ev.sYs, ev.m))
                     \cup C("stack-trans", StkOK(ev.adj, ev.sU, ev.sUi, ev.sV, ev.sVs, ev.n))
          ELSE {})
SemClauses(ev) ==
  IF ev.exc # "" THEN {"exception"}
  ELSE IF ~Declared(ev) THEN {"shape"}
  ELSE IF ev.m # Rows(ev.d) \/ ev.n # NCols(ev.d) THEN {"documented-shape"}
  ELSE C("documented-matrix", MNear(ev.fwd.re, RowsRe(ev.d), T1) /\ MNear(ev.fwd.im, RowsIm(ev.d), T1))
    \cup C("to-matrix", CMNear(ev.tm, ev.fwd, T1) /\ CMNear(ev.tc, ev.fwd, T1))
    \cup (IF ev.col THEN
            C("column", CNear(ev.c1,
                [re |-> [i \in 1..ev.m |-> ev.fwd.re[i][ev.cj1]], im |-> [i \in 1..ev.m |-> ev.fwd.im[i][ev.cj1]]], T1))
          ELSE {})
    \cup (IF ev.col /\ ev.cols THEN
            C("columns", Len(ev.ck) = Len(ev.cj2) /\ \A t \in 1..Len(ev.cj2) : CNear(ev.ck[t],
                [re |-> [i \in 1..ev.m |-> ev.fwd.re[i][ev.cj2[t]]], im |-> [i \in 1..ev.m |-> ev.fwd.im[i][ev.cj2[t]]]], T1))
            \cup C("apply-columns", CNear(ev.ac,
                CMV(ev.fwd, [j \in 1..ev.n |-> IF \E t \in 1..Len(ev.cj) : ev.cj[t] = j THEN ev.xr[j] ELSE 0], Zeros(ev.n)), T1 + L1(ev.xr)))
          ELSE {})
FlagClauses(ev) ==
  IF ev.exc # "" THEN {"exception"}
  ELSE C("real-flag", ev.flags.real => \A i \in 1..Len(ev.fwd.im) : \A j \in 1..Len(ev.fwd.im[i]) : Abs(ev.fwd.im[i][j]) <= T1)
    \cup C("linear-flag", ev.flags.linear => CNear(ev.y, CMV(ev.fwd, ev.xr, ev.xi), T1 + L1(ev.xr) + L1(ev.xi)))
    \cup C("nonlinear-refused", ev.refused)
    \cup C("jit-flag", ev.jitok)
    \cup (IF ~ev.stk THEN {} ELSE IF ev.stkexc THEN {"matrix-flag"}
          ELSE C("matrix-flag", StkOK(ev.fwd, ev.sX, ev.sXi, ev.sY, ev.sYs, ev.m) /\ StkOK(Dag(ev.fwd), ev.sU, ev.sUi, ev.sV, ev.sVs, ev.n)))
(* the library's own dot test: must reject a pair that is not adjoint *)
DotTest(ev) == C("dot-test-accepts", ev.truth => ev.verdict) \cup C("dot-test-rejects", ev.verdict => ev.truth)
AdjVerdict(p, ev) == IF ev.kind = "dottest" THEN DotTest(ev) ELSE AdjClauses(ev)
SemVerdict(p, ev) == SemClauses(ev)
FlagVerdict(p, ev) == FlagClauses(ev)
=============================================================================
