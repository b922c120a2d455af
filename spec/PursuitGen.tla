---------------------------- MODULE PursuitGen ----------------------------
(* Explores runs of the greedy solvers on rational unit-norm dictionaries and  *)
(* integer measurements, checks the algorithms' invariants, emits the problems. *)
EXTENDS Pursuit, Json
CONSTANTS Names, NDict, NY, NSeed, MaxIt, Emit
Dicts == 0..NDict
Ys == 1..NY
Seeds == 1..NSeed
Pool(m) == CASE m = 3 -> << <<3,4,0,5>>, <<1,2,2,3>>, <<2,3,6,7>>, <<5,12,0,13>>, <<1,4,8,9>>, <<2,6,9,11>>, <<1,0,0,1>> >>
  [] m = 4 -> << <<1,1,1,1,2>>, <<1,1,3,5,6>>, <<2,4,5,6,9>>, <<1,3,3,9,10>>, <<1,1,7,7,10>>, <<3,4,0,0,5>>, <<1,2,2,0,3>> >>
  [] m = 6 -> << <<1,1,1,1,1,2,3>>, <<1,1,1,2,3,0,4>>, <<2,2,2,2,3,0,5>>, <<1,1,3,3,4,0,6>>, <<1,2,2,0,0,0,3>>, <<3,4,0,0,0,0,5>>, <<0,1,1,1,0,1,2>> >>
Usable(m) == {b \in 1..7 : QP % Pool(m)[b][m + 1] = 0}
Rot(i, k, m) == ((i - 1 + k) % m) + 1
(* column j of dictionary (m, seed): a pool vector rotated, with signs *)
AtomOf(m, sd, j) == IF sd = 0 THEN TLCEval([i \in 1..m |->      \* unit vectors and two others
     IF j <= m THEN (IF i = j THEN QP ELSE 0)
     ELSE IF j = m + 1 THEN (CASE m = 4 -> QP \div 2 [] m = 3 -> (<<1, 2, 2>>[i] * QP) \div 3 [] OTHER -> (<<1, 1, 1, 1, 1, 2>>[i] * QP) \div 3)
     ELSE (IF i = 1 THEN -((QP * 3) \div 5) ELSE IF i = m THEN (QP * 4) \div 5 ELSE 0)]) ELSE
  LET U == SetToSortSeq(Usable(m), LAMBDA a, b : a < b)
      b == Pool(m)[U[((sd * 3 + j * 2 + ((sd * j) % 5)) % Len(U)) + 1]]
      k == (sd + j * (1 + (sd % 2))) % m
  IN TLCEval([i \in 1..m |-> (IF ((sd * 5 + j * 3 + i * (1 + ((j + sd) % 3))) \div 2) % 2 = 0 THEN 1 ELSE -1) * b[Rot(i, k, m)] * (QP \div b[m + 1])])
NOf(m) == CASE m = 3 -> 5 [] m = 4 -> 6 [] m = 6 -> 8
YOf(m, t) == [i \in 1..m |-> QP * (((t * (2 * i + 1) + (t \div 3) * i * i + 5 * i) % 9) - 4)]
Prob(m, sd, t) == [m |-> m, N |-> NOf(m), g |-> 1, col |-> TLCEval([j \in 1..NOf(m) |-> AtomOf(m, sd, j)]), y |-> YOf(m, t)]
Coherent(P) == \E a, b \in 1..P.N : a < b /\ Abs(QDot(P.col[a], P.col[b])) > (QP * 9) \div 10
Ks(nm, m) == CASE nm = "mp" -> {0} [] nm = "omp" -> {m - 1} [] nm = "sp" -> {1, m \div 2}
   [] nm = "cosamp" -> {1, m \div 3} [] OTHER -> {1, 2}
Solvers(m) == {[name |-> nm, K |-> k, mu |-> mu, nrm |-> nr] : nm \in Names, k \in UNION {Ks(q, m) : q \in Names}, mu \in {0, QP \div 2}, nr \in BOOLEAN}
OkSolver(sv, m) == sv.K \in Ks(sv.name, m) /\ (IF sv.name \in {"iht", "htp"} THEN (sv.mu = 0) = sv.nrm ELSE sv.mu = 0 /\ ~sv.nrm)
VARIABLES ph, sv, P, s, k, last, tie
vars == <<ph, sv, P, s, k, last, tie>>
Null == [x |-> <<>>, I |-> <<>>, r |-> <<>>]
(* larger random problems: only descriptors, the recorder draws them from the seed *)
RandK(nm) == CASE nm = "mp" -> {0} [] nm = "omp" -> {4} [] OTHER -> {2, 3}
Init == /\ k = 0 /\ last = Null /\ tie = FALSE
        /\ \/ /\ ph = "run"
              /\ \E m \in {3, 4, 6}, d \in Dicts, t \in Ys : \E p \in {Prob(m, d, t)} :
                 /\ ~Coherent(p) /\ MaxAbs(p.y) > 0
                 /\ P = p /\ s = Start(p) /\ \E v \in Solvers(m) : OkSolver(v, m) /\ sv = v
           \/ /\ ph = "rand" /\ s = Null
              /\ \E d \in {<<10, 16>>, <<14, 20>>}, g \in {1, 2}, sd \in Seeds, nm \in Names :
                 /\ (g = 2 => nm \in {"omp", "sp", "cosamp"})
                 /\ P = [m |-> d[1], N |-> d[2], g |-> g, seed |-> sd]
                 /\ \E kk \in RandK(nm), nr \in BOOLEAN :
                      /\ (nr => nm \in {"iht", "htp"})
                      /\ sv = [name |-> nm, K |-> kk, mu |-> IF nr \/ nm \notin {"iht", "htp"} THEN 0 ELSE (QP * 2) \div 5, nrm |-> nr]
Small == Norm2(s.r) < QP \div 200
MergeCount(first) == IF sv.name = "sp" THEN sv.K ELSE IF first THEN 3 * sv.K ELSE 2 * sv.K
NextMerge == Merge(P, s, Corr(P, s.r), MergeCount(FALSE), MergeCount(TRUE))
NextOK == IF sv.name \in {"sp", "cosamp"} THEN WellPosed(P, NextMerge)
          ELSE IF sv.name = "omp" THEN WellPosed(P, Append(s.I, TopK(Mags(P, Corr(P, s.r)), 1)[1]))
          ELSE TRUE
(* a selection of the next step is decided by less than 1/80 *)
TieNext(t) ==
  CASE sv.name \in {"mp", "omp"} -> Gap(Mags(P, Corr(P, s.r)), 1) < QP \div 80
    [] sv.name \in {"sp", "cosamp"} ->
         \/ Gap(IF s.I = <<>> THEN Mags(P, Corr(P, s.r)) ELSE Masked(P, Corr(P, s.r), s.I), MergeCount(s.I = <<>>)) < QP \div 80
         \/ \E J \in {NextMerge} : Gap(PruneMag(P, LSQ(P, J), J), sv.K) < QP \div 80
    [] OTHER -> \E h \in {Corr(P, s.r)} : \E st \in {IF sv.nrm THEN LineStep(P, h, LineSupp(s, sv.K)) ELSE sv.mu} :
          Gap([c \in 1..P.N |-> Abs(s.x[c] + QM(st, h[c]))], sv.K) < QP \div 80
Limit == IF sv.name = "omp" THEN sv.K ELSE MaxIt
Go == /\ ph = "run" /\ k < Limit /\ ~Small /\ NextOK
      /\ \E t \in Step(sv, P, s) :
           /\ MaxAbs(t.x) < 60 * QP
           /\ (sv.name = "htp" => WellPosed(P, t.I))
           /\ s' = t /\ last' = s /\ k' = k + 1 /\ tie' = (tie \/ TieNext(t))
      /\ UNCHANGED <<ph, sv, P>>
Stop == /\ ph = "run" /\ k >= 1 /\ (k >= Limit \/ Small \/ ~NextOK)
        /\ ph' = "done"
        /\ (Emit => PrintT(<<"CASE", ToJson([kind |-> "model", sv |-> sv, m |-> P.m, N |-> P.N, col |-> P.col, y |-> P.y, its |-> k,
                 tie |-> tie, more |-> (k >= Limit /\ sv.name # "omp" /\ ~Small /\ NextOK)])>>))
        /\ UNCHANGED <<sv, P, s, k, last, tie>>
Rand == /\ ph = "rand" /\ ph' = "done"
        /\ (Emit => PrintT(<<"CASE", ToJson([kind |-> "rand", sv |-> sv, m |-> P.m, N |-> P.N, g |-> P.g, seed |-> P.seed])>>))
        /\ UNCHANGED <<sv, P, s, k, last, tie>>
Next == Go \/ Stop \/ Rand
Spec == Init /\ [][Next]_vars
Run == ph # "rand" /\ s # Null
(* ------------------------------- properties ------------------------------- *)
Consistent == Run => (VNear(s.r, Resid(P, s.x), 0))
Sparse == Run => (sv.name # "mp" => Cardinality({c \in 1..P.N : s.x[c] # 0}) <= Max2(sv.K, 0))
Distinct == Run => (sv.name # "mp" => Cardinality(SetOf(s.I)) = Len(s.I))
NoGrowth == Run => ((sv.name \in {"mp", "omp"} /\ last # Null) => Norm2(s.r) <= Norm2(last.r) + 40)
Ortho == Run => ((sv.name \in {"omp", "sp"} \/ (sv.name = "htp" /\ k > 1)) => IsLSQ(P, s.x, s.I))
(* the executable machine is one of the behaviours the relation permits *)
Refines == Run => (last # Null => Rel(sv, P, last, s))
=============================================================================
