------------------------------- MODULE ProbGen ------------------------------
EXTENDS Prob, Json
CONSTANTS Deep, Emit
Keys == IF Deep THEN 0..7 ELSE 0..2
D0 == [name |-> "", n |-> 0, m |-> 0, c |-> 0, k |-> 0, p |-> 0, level |-> 0, scale |-> 1000, key |-> 0]
Fixed == {[D0 EXCEPT !.name = "heavisine", !.n = n] : n \in {16, 24, 32, 48}} \cup {[D0 EXCEPT !.name = w, !.n = n] : w \in {"haar"}, n \in {32, 64, 128, 256}}
         \cup {[D0 EXCEPT !.name = w, !.n = n] : w \in {"heaviblocks", "nheaviblocks"}, n \in {16, 32, 64}}
Spk == {[D0 EXCEPT !.name = w, !.n = n, !.c = c, !.k = k, !.key = y] : w \in {"cosspikes", "sinspikes"}, n \in {15, 16, 32}, c \in {1, 2, 5}, k \in {1, 6}, y \in Keys}
Cg == {[D0 EXCEPT !.name = "cosgauss", !.n = n, !.m = m, !.c = c, !.k = k, !.key = y] : n \in {16, 24}, m \in {8, 15}, c \in {2, 3}, k \in {4}, y \in Keys}
Poly == {[D0 EXCEPT !.name = "poly", !.n = h[1], !.m = 12, !.p = p, !.level = h[2], !.key = y] : h \in {<<32, 1>>, <<64, 2>>, <<64, 1>>}, p \in {1, 2, 4}, y \in Keys}
Dir == {[D0 EXCEPT !.name = w, !.n = h[1], !.m = h[2], !.k = h[3], !.scale = s, !.key = y] : w \in {"spikes", "cspikes", "gspikes"}, h \in {<<20, 8, 3>>, <<30, 30, 5>>, <<12, 5, 1>>}, s \in {1000, 500, 1500, 20}, y \in Keys}
Mix == {[D0 EXCEPT !.name = "mix", !.n = n, !.key = y] : n \in {1024, 1280}, y \in 0..2}
Items == Fixed \cup Spk \cup Cg \cup Poly \cup Dir \cup Mix
VARIABLES item, stage
vars == <<item, stage>>
(* building a problem: choose dictionary, compose with sensing, then measure *)
Init == item \in Items /\ stage = <<>>
Dictionary == stage = <<>> /\ item.name # "mix" /\ stage' = <<[r |-> item.n, c |-> DictCols(item.name, item.n, item)]>> /\ UNCHANGED item /\ (Emit => PrintT(<<"CASE", ToJson(item)>>))
Mixing == stage = <<>> /\ item.name = "mix" /\ stage' = <<[r |-> item.n, c |-> item.n]>> /\ UNCHANGED item /\ (Emit => PrintT(<<"CASE", ToJson(item)>>))
Sensing == Len(stage) = 1 /\ stage' = Append(stage, [r |-> Rows(item.name, item.n, item.m), c |-> stage[1].r]) /\ UNCHANGED item
Compose == Len(stage) = 2 /\ stage' = Append(stage, [r |-> stage[2].r, c |-> stage[1].c]) /\ UNCHANGED item
Next == Dictionary \/ Mixing \/ Sensing \/ Compose
Spec == Init /\ [][Next]_vars
Compatible == Len(stage) = 3 => stage[2].c = stage[1].r /\ stage[3].r = stage[2].r /\ stage[3].c = stage[1].c
SparseFits == item.name \in {"cosspikes", "sinspikes", "cosgauss"} => item.c + item.k <= 2 * item.n
(* the blocks signal has few jumps; the jump part of heavi-sine has two levels changes *)
BlocksSparse == item.name \in {"haar", "heaviblocks"} => Count(Diff(Blocks(item.n)), 1, item.n) <= 13
BlocksEnds == item.name \in {"haar", "heaviblocks"} => Blocks(item.n)[1] = 0 /\ Abs(Blocks(item.n)[item.n]) = 0
=============================================================================
