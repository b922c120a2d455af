----------------------------- MODULE GridTrace -----------------------------
EXTENDS Grid, TraceBase
MEq(A, B2, tol) == Len(A) = Len(B2) /\ \A i \in 1..Len(A) : VNear(A[i], B2[i], tol)
PT(ev) == LET N == ev.d.N IN
  C("listed", ev.confs = ev.listed)
  \cup C("levels", ev.Ms = [x \in 1..NumE(N) |-> MOf(N, x)] /\ ev.etas = ev.Ms)
  \cup C("ratios", ev.rhos = [x \in 1..NumR(N) |-> x])
  \cup C("mapped", /\ Len(ev.map) = NumE(N) * NumR(N)
                   /\ \A i \in 1..Len(ev.map) : \E t \in {ev.map[i]} :
                        t[1] \in 1..NumR(N) /\ t[2] % MMin(N) = 0 /\ t[4] = t[2] /\ t[3] = KOf(N, t[2] \div MMin(N), t[1])
                   /\ Cardinality({<<ev.map[i][1], ev.map[i][2]>> : i \in 1..Len(ev.map)}) = Len(ev.map))
  \cup C("own-ratios", \A i \in 1..Len(ev.own) : \E t \in {ev.own[i]} :
        t[2] = ev.confs[i][2] /\ t[1] \in 1..NumR(N) /\ ev.confs[i][1] = KOf(N, t[2] \div MMin(N), t[1]))
GridVerdict(p, ev) ==
  IF ev.d.kind = "ptbad" THEN C("refused", ev.exc # "")
  ELSE IF ev.exc # "" THEN {"exception"}
  ELSE CASE ev.d.kind = "pt" -> PT(ev)
    [] ev.d.kind = "blk" -> C("starts", ev.s = Starts(ev.d.n, ev.d.b)) \cup C("ends", ev.t = Ends(ev.d.n, ev.d.b))
    [] ev.d.kind = "box" -> C("kernel", MEq(ev.K, BoxK(ev.d.s), 1))
    [] ev.d.kind = "fixed" -> C("kernel", MEq(ev.K, Named(ev.d.name), 0))
    [] ev.d.kind = "gauss" -> C("kernel", MEq(ev.K, GaussK(ev.d.h, ev.d.w, ev.d.sx, ev.d.sy), 6))
    [] ev.d.kind = "ricker" -> C("wavelet", VNear(ev.w, [i \in 1..Len(ev.d.j) |-> RickerAt(ev.d.j[i])], 14) /\ VNear(ev.w, ev.wn, 1))
=============================================================================
