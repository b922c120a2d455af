---------------------------- MODULE ThreshTrace ----------------------------
EXTENDS Thresh, TraceBase
(* recorded z: fixed point real and imaginary parts *)
MagZ(re, im) == VNorm(<<re, im>>)
Aligned(xr, xi, re, im) ==      \* same direction as x, not reversed
   /\ Abs(CM(xr * HU, im) - CM(xi * HU, re)) <= 60
   /\ CM(xr * HU, re) + CM(xi * HU, im) >= -30
ThreshVerdict(p, ev) ==
  IF ev.exc # "" THEN {"exception"}
  ELSE IF Len(ev.re) # Len(ev.d.x) THEN (IF ev.d.kind = "convert"
       THEN C("conversion", /\ Near(8 * ev.re[1], ev.d.th * ev.d.th * CS, 60)              \* tau = gamma^2 / 2
                            /\ Near(ev.re[2], TauHalf(ev.d.th * HU), 20 + ev.re[2] \div 500))
       ELSE {"shape"})
  ELSE IF ~VFinite(ev.re) \/ ~VFinite(ev.im) THEN {"not-finite"}
  ELSE IF MaxAbs(ev.re) > 15 * CS \/ MaxAbs(ev.im) > 15 * CS THEN {"enlarged"}
  ELSE IF ev.d.cplx
  THEN C("value", \A i \in 1..Len(ev.d.x) : LET x == ev.d.x[i] IN
          Aligned(x[1], x[2], ev.re[i], ev.im[i]) /\
          \E e \in {-6, -3, 0, 3, 6} : LET z == MagZ(ev.re[i], ev.im[i]) IN ValueOK(ev.d.kind, x[3], ev.d.th, IF z = 0 THEN 0 ELSE z + e))
  ELSE C("real", MaxAbs(ev.im) = 0)
   \cup C("sign", \A i \in 1..Len(ev.d.x) : ev.re[i] = 0 \/ (ev.re[i] > 0) = (ev.d.x[i] > 0))
   \cup C("enlarged", \A i \in 1..Len(ev.d.x) : Abs(ev.re[i]) <= Abs(ev.d.x[i]) * HU + 3)
   \cup (IF ev.d.perc = 0 /\ ev.d.th > 0
         THEN C("value", \A i \in 1..Len(ev.d.x) : ValueOK(ev.d.kind, Abs(ev.d.x[i]), ev.d.th, Abs(ev.re[i])))
         ELSE \* a percentile of zero leaves the half threshold undefined only at zero, which stays zero
              C("percentile-value", \E g \in {Percentile(AbsV(ev.d.x), ev.d.perc)} :
                 \A i \in 1..Len(ev.d.x) : PercOK(ev.d.kind, Abs(ev.d.x[i]) * HU, g, Abs(ev.re[i]))))
=============================================================================
