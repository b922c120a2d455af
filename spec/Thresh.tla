------------------------------- MODULE Thresh -------------------------------
(* Thresholding: piecewise definitions.  Points and thresholds in half units.  *)
EXTENDS Convex
(* does a point of magnitude m (half units) survive?  "no", "yes", "edge" *)
Keep(kind, m, th) ==
  CASE kind \in {"hard", "hard_jit"} -> IF m * m > 4 * th THEN "yes" ELSE "no"
    [] kind \in {"soft", "soft_jit", "shrink"} -> IF m > th THEN "yes" ELSE "no"
    [] kind \in {"half", "half_jit"} -> IF 16 * m * m * m > 27 * th * th THEN "yes" ELSE IF 16 * m * m * m = 27 * th * th THEN "edge" ELSE "no"
SqrtF(z) == ISqrt(z * CS)                     \* square root of a fixed point number below 20
(* z (fixed point magnitude) is the documented value for magnitude x (fixed point) and threshold t (fixed point) *)
Shrunk(kind, x, t, z) ==
  CASE kind \in {"hard", "hard_jit"} -> Near(z, x, 3)
    [] kind \in {"soft", "soft_jit", "shrink"} -> Near(z, x - t, 4)
       (* minimiser of (z-x)^2 + t sqrt(z): stationary, on the upper branch *)
    [] kind \in {"half", "half_jit"} -> /\ Abs(4 * CM(x - z, SqrtF(z)) - t) <= 40 + t \div 200
                           /\ 3 * z >= 2 * x - 12 /\ z <= x + 2
ValueOK(kind, m, th, z) ==      \* m, th half units; z recorded magnitude
  LET k == Keep(kind, m, th) IN
   \/ (k \in {"yes", "edge"} /\ Shrunk(kind, m * HU, th * HU, z))
   \/ (k \in {"no", "edge"} /\ z = 0)
(* percentile forms: the threshold gamma is the linear interpolation percentile of the magnitudes *)
Percentile(ms, perc) ==           \* ms: magnitudes in half units; result at scale CS
  LET s == [i \in 1..Len(ms) |-> SortDesc(ms)[Len(ms) + 1 - i]]
      pos == perc * (Len(ms) - 1)
      lo == pos \div 100  fr == pos % 100
  IN IF fr = 0 THEN s[lo + 1] * HU ELSE s[lo + 1] * HU + ((s[lo + 2] - s[lo + 1]) * HU * fr) \div 100
Base(kind) == CASE kind = "hard_percentile" -> "hard" [] kind = "soft_percentile" -> "soft" [] kind = "half_percentile" -> "half"
   [] kind = "hard_percentile_jit" -> "hard" [] kind = "soft_percentile_jit" -> "soft" [] kind = "half_percentile_jit" -> "half"
(* tau of the half threshold whose cut is gamma: 32 gamma^3 = 27 tau^2, so tau = gamma * sqrt(32 gamma / 27) *)
TauHalf(g) == CM(g, ISqrt(((32 * (g \div 27)) + (32 * (g % 27)) \div 27) * CS))
PercOK(kind, x, g, z) ==          \* all fixed point magnitudes
  LET b == Base(kind) IN
   CASE b = "soft" -> Near(z, Max2(0, x - g), 6)
     [] b = "hard" -> (x > g + 3 /\ Near(z, x, 4)) \/ (x < g - 3 /\ z = 0) \/ (Abs(x - g) <= 3 /\ (z = 0 \/ Near(z, x, 4)))
     [] b = "half" -> LET t == TauHalf(g) IN
          \/ (x > g - 3 /\ Shrunk("half", x, t, z)) \/ (x < g + 3 /\ z = 0)
=============================================================================
