----------------------------- MODULE ThreshGen -----------------------------
EXTENDS Thresh, Json
CONSTANTS Deep, Emit
Plain == {"hard", "soft", "half", "shrink", "hard_jit", "soft_jit", "half_jit"}
Perc == {"hard_percentile", "soft_percentile", "half_percentile", "hard_percentile_jit", "soft_percentile_jit", "half_percentile_jit"}
Taus == IF Deep THEN {1, 2, 3, 4, 5, 6, 8, 9} ELSE {1, 2, 4, 9}
Cplx == << <<3, 4, 5>>, <<-8, 6, 10>>, <<0, -2, 2>>, <<5, -12, 13>>, <<-4, -3, 5>>, <<1, 0, 1>>, <<0, 0, 0>> >>
Vecs == {<<1, -3, 5, 8, 0, -7>>, <<4, 4, -4, 2>>, <<-1, 6, 3, -9, 10, 2, -5>>, <<3>>, <<0, 0, 5, -5, 1>>}
       \cup (IF Deep THEN {<<a, b, c, 7 - a>> : a \in -3..3, b \in {-8, 1, 4}, c \in {0, 5, -9}} ELSE {})
Items == {[kind |-> k, th |-> t, cplx |-> c, x |-> IF c THEN <<>> ELSE [i \in 1..21 |-> i - 11], perc |-> 0] :
            k \in Plain, t \in Taus, c \in BOOLEAN}
    \cup {[kind |-> k, th |-> 0, cplx |-> FALSE, x |-> v, perc |-> p] : k \in Perc, v \in Vecs, p \in {0, 20, 25, 50, 75, 90, 100}}
    \cup {[kind |-> "convert", th |-> g, cplx |-> FALSE, x |-> <<>>, perc |-> 0] : g \in 1..10}
VARIABLES item, done
Init == item \in {i \in Items : ~(i.cplx /\ i.kind = "shrink")} /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED item
        /\ (Emit => PrintT(<<"CASE", ToJson([item EXCEPT !.x = IF item.cplx THEN Cplx ELSE item.x])>>))
Spec == Init /\ [][Next]_<<item, done>>
(* the piecewise maps are the minimisers of their penalised least squares on the grid of magnitudes:   *)
(* hard (penalty tau per nonzero, with 1/2 |z-x|^2) and soft (tau |z|): no grid magnitude does better *)
Best == item.kind \in {"hard", "soft"} /\ ~item.cplx => \A i \in 1..Len(item.x) :
   LET m == Abs(item.x[i])  th == item.th
       z == IF Keep(item.kind, m, th) = "yes" THEN (IF item.kind = "hard" THEN m ELSE m - th) ELSE 0
       J(w) == (w - m) * (w - m) + (IF item.kind = "hard" THEN (IF w = 0 THEN 0 ELSE 4 * th) ELSE 2 * th * w)
   IN \A w \in 0..12 : J(z) <= J(w)
(* thresholding keeps at least as many entries as lie strictly above the percentile *)
PercSane == item.kind \in Perc => LET g == Percentile(AbsV(item.x), item.perc) IN g >= 0 /\ g <= HU * MaxAbs(item.x)
=============================================================================
