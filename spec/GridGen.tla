------------------------------ MODULE GridGen ------------------------------
(* The grid is built point by point, ratio by ratio within each undersampling    *)
(* level; a point already listed is not listed again but is still mapped.        *)
EXTENDS Grid, Json, TLC
CONSTANTS Deep, Emit
Ns == IF Deep THEN {32, 64, 128, 256, 512, 1024, 2048} ELSE {32, 64, 128, 256, 512}
VARIABLES item, e, k, listed, done
vars == <<item, e, k, listed, done>>
InitItem ==
  \/ \E N \in Ns : item = [kind |-> "pt", N |-> N]
  \/ \E N \in {1, 8, 16, 31, 48, 100, 33} : item = [kind |-> "ptbad", N |-> N]
  \/ \E b \in 1..6, n \in 1..(IF Deep THEN 30 ELSE 14) : n >= b /\ item = [kind |-> "blk", n |-> n, b |-> b]
  \/ \E s \in {3, 5, 7, 21} : item = [kind |-> "box", s |-> s]
  \/ \E nm \in {"sharpen", "laplacian", "sobel_x", "sobel_y"} : item = [kind |-> "fixed", name |-> nm]
  \/ \E h, w \in 1..(IF Deep THEN 9 ELSE 6), sx, sy \in {1, 2, 4} : item = [kind |-> "gauss", h |-> h, w |-> w, sx |-> sx, sy |-> sy]
  \/ \E f \in {0, 1, 5, 40} : item = [kind |-> "ricker", f |-> f, j |-> [i \in 1..60 |-> (i - 1) * 3]]
Init == InitItem /\ e = 1 /\ k = 1 /\ listed = <<>> /\ done = FALSE
Active == item.kind = "pt" /\ e <= NumE(item.N)
Visit == /\ Active /\ ~done
         /\ listed' = IF \E i \in 1..Len(listed) : listed[i] = <<KOf(item.N, e, k), MOf(item.N, e)>> THEN listed
                      ELSE Append(listed, <<KOf(item.N, e, k), MOf(item.N, e)>>)
         /\ IF k < NumR(item.N) THEN k' = k + 1 /\ e' = e ELSE k' = 1 /\ e' = e + 1
         /\ UNCHANGED <<item, done>>
Finish == /\ ~Active /\ ~done /\ done' = TRUE /\ UNCHANGED <<item, e, k, listed>>
          /\ (Emit => PrintT(<<"CASE", ToJson([d |-> item, listed |-> listed])>>))
Next == Visit \/ Finish
Spec == Init /\ [][Next]_vars
(* every listed experiment is admissible and distinct; levels ascend *)
Sane == item.kind = "pt" => \A i \in 1..Len(listed) :
   /\ listed[i][1] >= 1 /\ 2 * listed[i][1] <= listed[i][2] /\ 2 * listed[i][2] <= item.N /\ listed[i][2] % MMin(item.N) = 0
   /\ i > 1 => (listed[i - 1][2] < listed[i][2] \/ (listed[i - 1][2] = listed[i][2] /\ listed[i - 1][1] < listed[i][1]))
Complete == (item.kind = "pt" /\ done) => \A ee \in 1..NumE(item.N), kk \in 1..NumR(item.N) :
   \E i \in 1..Len(listed) : listed[i] = <<KOf(item.N, ee, kk), MOf(item.N, ee)>>
(* kernels: the Gaussian sums to one, is symmetric, decreases from its centre *)
KernelSane == item.kind = "gauss" => LET G == GaussK(item.h, item.w, item.sx, item.sy) IN
   /\ Abs(SumS([i \in 1..item.h |-> SumS(G[i])]) - GS) <= 2 * item.h * item.w
   /\ \A i \in 1..item.h, j \in 1..item.w : G[i][j] = G[item.h + 1 - i][j] /\ G[i][j] = G[i][item.w + 1 - j] /\ G[i][j] >= 0
   /\ \A i \in 1..item.h, j \in 1..(item.w - 1) : 2 * j < item.w => G[i][j] <= G[i][j + 1]
LayoutSane == item.kind = "blk" => LET s == Starts(item.n, item.b)  t == Ends(item.n, item.b) IN
   \A i \in 1..Len(s) : t[i] - s[i] + 1 = item.b /\ t[i] < item.n /\ (i > 1 => s[i] = t[i - 1] + 1)
=============================================================================
