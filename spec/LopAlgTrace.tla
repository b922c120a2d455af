----------------------------- MODULE LopAlgTrace -----------------------------
(* Judges what real operator expressions do against the algebra of matrices.    *)
EXTENDS LopAlg, TraceBase
TS == 16                               \* recording scale
Shp(M, m, n) == Len(M.re) = m /\ Len(M.im) = m /\ \A i \in 1..m : Len(M.re[i]) = n /\ Len(M.im[i]) = n
IsMat(M, re, im) == /\ \A i \in 1..Len(re) : \A j \in 1..Len(re[i]) :
                          Near(M.re[i][j], TS * re[i][j], 1) /\ Near(M.im[i][j], TS * im[i][j], 1)
CV(v, xr, xi) == [re |-> TLCEval([i \in 1..v.m |-> TS * (Dot(v.re[i], xr) - Dot(v.im[i], xi))]),
                  im |-> TLCEval([i \in 1..v.m |-> TS * (Dot(v.re[i], xi) + Dot(v.im[i], xr))])]
CN(u, v) == VNear(u.re, v.re, 1) /\ VNear(u.im, v.im, 1)
AlgC(ev, v, h) ==
  IF ev.m # v.m \/ ev.n # v.n THEN {"declared-shape"}
  ELSE IF ~Shp(ev.fwd, v.m, v.n) \/ ~Shp(ev.adj, v.n, v.m) THEN {"shape"}
  ELSE C("forward-matrix", IsMat(ev.fwd, v.re, v.im))
    \cup C("adjoint-matrix", IsMat(ev.adj, h.re, h.im))
    \cup C("forward", CN(ev.y, CV(v, ev.xr, ev.xi)))
    \cup C("adjoint", CN(ev.v, CV(h, ev.ur, ev.ui)))
    \cup (IF ev.stk THEN
            C("stack-forward", Len(ev.sY) = Len(ev.sX) /\ \A c \in 1..Len(ev.sX) : CN(ev.sY[c], CV(v, ev.sX[c], Zeros(v.n))))
            \cup C("stack-adjoint", Len(ev.sV) = Len(ev.sU) /\ \A c \in 1..Len(ev.sU) : CN(ev.sV[c], CV(h, ev.sU[c], Zeros(v.m))))
          ELSE {})
    \cup (IF ev.flags.jit THEN C("jit", CN(ev.yj, CV(v, ev.xr, ev.xi)) /\ CN(ev.vj, CV(h, ev.ur, ev.ui))) ELSE {})
AlgClauses(ev) ==
  IF ev.exc # "" THEN {"exception"}
  ELSE UNION {UNION {AlgC(ev, v, h) : h \in {CT(v, -1)}} : v \in {Meaning(ev.c.ia, ev.c.ib, ev.c.prog)}}
(* capabilities: what is advertised must be there *)
CapC(ev, v) ==
       LET prevOps == ev.c.prog
           win == \E k \in 1..Len(prevOps) : prevOps[k].op \in {"window", "block", "block3"}
       IN C("real-flag", ev.flags.real => (v.real \/ \A i \in 1..v.m : \A j \in 1..v.n : v.im[i][j] = 0))
     \cup C("linear-flag", ev.flags.linear => v.linear)
     \cup C("jit-flag", ev.flags.jit => v.jit)
     \cup C("matrix-flag", ev.flags.mat => (v.mat \/ win))
     \cup C("matrix-works", ev.flags.mat => ev.stkok)
     \cup C("jit-works", ev.flags.jit => ev.jitok)
     \cup C("jit-refused", ~ev.flags.jit => ev.jitrefused)
     \cup C("to-matrix-refused", ~ev.flags.linear => ev.tmrefused)
CapClauses(ev) ==
  IF ev.exc # "" THEN {"exception"}
  ELSE UNION {CapC(ev, v) : v \in {Meaning(ev.c.ia, ev.c.ib, ev.c.prog)}}
AlgVerdict(p, ev) == AlgClauses(ev)
CapVerdict(p, ev) == CapClauses(ev)
=============================================================================
