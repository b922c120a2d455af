-------------------------------- MODULE Trig --------------------------------
(* cos(2 pi k / 480) at scale 5040, quarter wave table.                      *)
EXTENDS Integers, Sequences
TrigScale == 5040
CosQ == <<5040, 5040, 5038, 5036, 5033, 5029, 5024, 5019, 5012, 5005, 4997, 4988, 4978, 4967, 4956, 4943, 4930, 4916, 4901, 4885, 4868, 4851, 4832, 4813, 4793, 4773, 4751, 4728, 4705, 4681, 4656, 4631, 4604, 4577, 4549, 4520, 4491, 4460, 4429, 4397, 4365, 4331, 4297, 4262, 4227, 4191, 4154, 4116, 4077, 4038, 3999, 3958, 3917, 3875, 3832, 3789, 3745, 3701, 3656, 3610, 3564, 3517, 3469, 3421, 3372, 3323, 3273, 3223, 3172, 3120, 3068, 3016, 2962, 2909, 2855, 2800, 2745, 2689, 2633, 2577, 2520, 2463, 2405, 2347, 2288, 2229, 2170, 2110, 2050, 1990, 1929, 1868, 1806, 1744, 1682, 1620, 1557, 1495, 1431, 1368, 1304, 1241, 1177, 1112, 1048, 983, 918, 854, 788, 723, 658, 592, 527, 461, 395, 330, 264, 198, 132, 66, 0>>
Cos480(k0) == LET k == ((k0 % 480) + 480) % 480 IN
  IF k <= 120 THEN CosQ[k + 1]
  ELSE IF k <= 240 THEN -CosQ[240 - k + 1]
  ELSE IF k <= 360 THEN -CosQ[k - 240 + 1]
  ELSE CosQ[480 - k + 1]
Sin480(k) == Cos480(k - 120)
(* cos / sin of 2 pi num / den, den a divisor of 480 *)
CosF(num, den) == Cos480(num * (480 \div den))
SinF(num, den) == Sin480(num * (480 \div den))
=============================================================================
