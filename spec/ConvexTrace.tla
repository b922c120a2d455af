---------------------------- MODULE ConvexTrace ----------------------------
EXTENDS Convex, TraceBase
TameV(v) == VFinite(v) /\ MaxAbs(v) < 400 * CS
ProjPt(d, t) ==
  LET n == Len(t.x) IN
  C("indicator", t.ind = (IF Member(d, t.x) THEN 0 ELSE 1) \/ t.ind = -1)
  \cup (IF ~t.has THEN {}
        ELSE IF Len(t.p) # n \/ Len(t.pp) # n THEN {"shape"}
        ELSE IF ~TameV(t.p) \/ ~TameV(t.pp) THEN {"not-finite"}
        ELSE C("nearest-point", Nearest(d, t.x, t.p))
          \cup C("member-unchanged", Member(d, t.x) => VNear(t.p, Sc(t.x), 2))
          \cup C("idempotent", VNear(t.pp, t.p, 6)))
Closer(d, t) == Len(t.x) = 2 /\ t.has /\ TameV(t.p) /\ Len(t.p) = 2 /\
   \E D \in {Dist2(Sc(t.x), t.p)} : \E z \in [1..2 -> {-6, -4, -3, -2, -1, 0, 1, 2, 3, 4, 6}] : Member(d, z) /\ Dist2(Sc(t.x), Sc(z)) < D - 200
ProjVerdict(p, ev) == IF ev.exc # "" THEN {"exception"}
  ELSE UNION {ProjPt(ev.d, ev.pts[k]) : k \in 1..Len(ev.pts)}
       \cup C("member-closer", \A k \in 1..Len(ev.pts) : ~Closer(ev.d, ev.pts[k]))
(* --------------------------------- prox --------------------------------- *)
Neg(x) == \E i \in 1..Len(x) : x[i] < 0
ValOK(d, v, z) == Near(v, FVal(d, z), 12)
OwnVal(d, xh, v) ==     \* the function's own value at the (exact) point; v = Lim marks infinity
  IF d.f = "set" THEN v = (IF Member(d.s, xh) THEN 0 ELSE Lim)
  ELSE IF d.f = "l1_pos" /\ Neg(xh) THEN v = Lim
  ELSE Near(v, FVal(d, Sc(xh)), 12)
ProxPt(d, t) ==
  C("own-value", OwnVal(d, t.x, t.fx))
  \cup (IF Len(t.z) # Len(t.x) \/ Len(t.zz) # Len(t.x) THEN {"shape"}
        ELSE IF ~TameV(t.z) \/ ~TameV(t.zz) THEN {"not-finite"}
        ELSE C("minimiser", ProxOK(d, t.x, t.th, t.z))
          \cup C("combined-vector", VNear(t.z, t.zz, 2))
          \cup C("combined-value", Abs(t.v) < Lim /\ ValOK(d, t.v, t.z)))
ProxVerdict(p, ev) == IF ev.exc # "" THEN {"exception"}
  ELSE UNION {ProxPt(ev.d, ev.pts[k]) : k \in 1..Len(ev.pts)}
(* -------------------------------- smooth -------------------------------- *)
GTol(g) == 10 + MaxAbs(g) \div 2000
VTol(v) == 16 + Abs(v) \div 2000
SmoothPt(d, t) ==
  IF Len(t.g) # Len(t.fd) \/ Len(t.g2) # Len(t.fd) THEN {"shape"}
  ELSE IF ~TameV(t.g) \/ ~TameV(t.g2) \/ Abs(t.v) >= Lim \/ Abs(t.v2) >= Lim THEN {"not-finite"}
  ELSE C("gradient-of-value", VNear(t.g, t.fd, GTol(t.fd)))
   \cup C("combined-call", VNear(t.g, t.g2, 2 + GTol(t.g) \div 5) /\ Near(t.v, t.v2, 2 + VTol(t.v) \div 5))
   \cup (IF d.f = "logdet"
         THEN LET X == << <<t.x[1], t.x[2]>>, <<t.x[2], t.x[3]>> >>  G == LdGrad(d, X) IN
              C("documented-value", Near(t.v, LdVal(d, X), VTol(t.v)))
              \cup C("documented-gradient", VNear(t.g, G[1] \o G[2], GTol(t.g)))
         ELSE C("documented-value", Near(t.v, SVal(d, t.x), VTol(t.v)))
              \cup C("documented-gradient", VNear(t.g, SGrad(d, t.x), GTol(t.g))))
SmoothVerdict(p, ev) == IF ev.exc # "" THEN {"exception"}
  ELSE UNION {SmoothPt(ev.d, ev.pts[k]) : k \in 1..Len(ev.pts)}
=============================================================================
