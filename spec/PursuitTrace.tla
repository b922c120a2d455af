--------------------------- MODULE PursuitTrace ---------------------------
(* Judges a recorded sequence of results of one greedy solver on one problem:  *)
(* its[k] is what the solver returned when allowed k iterations.               *)
EXTENDS Pursuit, TraceBase
Big(v) == Abs(v) > 100 * QP
Tame(P, t) == /\ VFinite(t.x) /\ VFinite(t.r) /\ VFinite(t.xs) /\ Abs(t.rn) < Lim
              /\ \A c \in 1..Len(t.x) : ~Big(t.x[c])
              /\ \A i \in 1..Len(t.r) : ~Big(t.r[i])
ShapeOK(P, t) == Len(t.x) = P.g * P.N /\ Len(t.r) = P.m /\ Len(t.xs) = P.g * P.N
SuppOK(ev, t) == LET S == SetOf(t.I) IN
   /\ S \subseteq 1..ev.P.N
   /\ Cardinality(S) = Len(t.I)
   /\ CASE ev.sv.name = "mp" -> S = {c \in 1..ev.P.N : t.nz[c] = 1}
        [] ev.sv.name = "omp" -> Len(t.I) = t.it
        [] OTHER -> Len(t.I) = ev.sv.K
   /\ OnSupp(ev.P, t.x, S)
RnTol(t) == 10 + Abs(t.rn) \div 400
SelfConsistent(ev, t) ==
   C("support", SuppOK(ev, t))
   \cup C("pairing", VNear(t.x, t.xs, 2))
   \cup C("residual", VNear(t.r, Resid(ev.P, t.x), 14))
   \cup C("residual-norm", Near(t.rn, Norm2(t.r), RnTol(t)))
   \cup C("iterations", t.it >= 1 /\ t.it <= t.k)
Basic(ev) == IF ev.exc # "" THEN {"exception"}
  ELSE IF \E k \in 1..Len(ev.its) : ~ShapeOK(ev.P, ev.its[k]) THEN {"shape"}
  ELSE IF \E k \in 1..Len(ev.its) : ~Tame(ev.P, ev.its[k]) THEN {"not-finite"}
  ELSE {}
Final(ev) == IF ev.dflt = <<>> THEN {}
  ELSE LET t == ev.dflt[1] IN
    IF ~ShapeOK(ev.P, t) THEN {"shape"} ELSE IF ~Tame(ev.P, t) THEN {"not-finite"} ELSE SelfConsistent(ev, t)
SelfVerdict(p, ev) ==
  IF ev.kind = "pair" THEN
     IF ev.exc # "" THEN {"exception"} ELSE IF ~VFinite(ev.xa) \/ ~VFinite(ev.xb) THEN {"not-finite"}
     ELSE C("forms-agree", VNear(ev.xa, ev.xb, 20 + MaxAbs(ev.xa) \div 500)) \cup C("forms-agree-iterations", ev.ita = ev.itb)
  ELSE
  LET b == Basic(ev) IN IF b # {} THEN b
  ELSE UNION {SelfConsistent(ev, ev.its[k]) : k \in 1..Len(ev.its)} \cup Final(ev)
(* ---------------- the iteration rule ---------------- *)
S0(P) == Start(P)
At(ev, k) == IF k = 0 THEN S0(ev.P) ELSE ev.its[k]
(* squared residual limit, rt is the relative tolerance in units of 1/1000 *)
Lim2(ev) == LET yn == Norm2(ev.P.y) IN FMul(FMul(yn, ev.rt, 1000), ev.rt, 1000)
Same(s, t) == s.it = t.it /\ s.I = t.I /\ VNear(s.x, t.x, 2)
Fixed(ev) == ev.sv.name = "omp" /\ ev.sv.form = "mat"     \* runs exactly max_iters iterations
StepClauses(ev, k) ==
  LET s == At(ev, k - 1)  t == ev.its[k]  P == ev.P  sv == ev.sv
      went == IF k = 1 THEN t.it = 1 ELSE t.it = s.it + 1
      stopped == k > 1 /\ Same(s, t)
      ended == k > 1 /\ s.it < k - 1              \* it had stopped before
      mustgo == k = 1 \/ Fixed(ev) \/ (~ended /\ MustGo(sv, P, At(ev, k - 2), s, k - 1, Lim2(ev)))
      muststop == k > 1 /\ ~Fixed(ev) /\ (ended \/ MustStop(sv, P, At(ev, k - 2), s, k - 1, Lim2(ev)))
  IN IF ~(went \/ stopped) THEN {"stopping-rule"}
     ELSE IF mustgo /\ ~went THEN {"stopped-early"}
     ELSE IF muststop /\ ~stopped THEN {"stopped-late"}
     ELSE (IF went THEN C("iteration-rule", Rel(sv, P, s, t)) ELSE {})
          \cup C("residual-grew", (sv.name \in {"mp", "omp"}) => t.rn <= (IF k = 1 THEN Norm2(P.y) ELSE s.rn) + RnTol(t))
(* the default number of iterations: the number of measurements, except for matching pursuit *)
RuleVerdict(p, ev) ==
  LET b == Basic(ev) IN IF b # {} THEN b
  ELSE LET c == UNION {SelfConsistent(ev, ev.its[k]) : k \in 1..Len(ev.its)} IN
    IF c \cap {"support", "residual"} # {} THEN c
    ELSE UNION {StepClauses(ev, k) : k \in 1..Len(ev.its)}
=============================================================================
