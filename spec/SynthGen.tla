------------------------------ MODULE SynthGen ------------------------------
EXTENDS Synth, Json
CONSTANTS Deep, Emit
Keys == IF Deep THEN 0..9 ELSE 0..2
Sig == {[kind |-> "sig", f |-> f, D |-> h[1], K |-> h[2], S |-> s, a |-> r[1], b |-> r[2], key |-> y] :
          f \in {"normal", "biuniform", "spikes"}, h \in {<<6, 2>>, <<5, 5>>, <<8, 1>>, <<9, 4>>, <<20, 7>>}, s \in {1, 3, 6}, r \in {<<1, 2>>, <<3, 3>>, <<2, 9>>}, y \in Keys}
SigOK(d) == d.kind # "sig" \/ d.f = "biuniform" \/ d.a = 3
Blk == {[kind |-> "blk", D |-> h[1], K |-> h[2], B |-> h[3], S |-> s, cor |-> c, norm |-> nm, key |-> y] :
          h \in {<<12, 2, 3>>, <<8, 4, 2>>, <<10, 1, 5>>, <<24, 3, 4>>, <<6, 2, 1>>}, s \in {1, 2, 5}, c \in {0, 50, 100, -100}, nm \in {0, 1}, y \in Keys}
BlkBad == {[kind |-> "blkbad", D |-> h[1], K |-> 1, B |-> h[2], key |-> 0] : h \in {<<7, 2>>, <<10, 4>>, <<5, 3>>}}
Idx == {[kind |-> "idx", N |-> h[1], K |-> h[2], S |-> s, axis |-> x, key |-> y] : h \in {<<6, 2>>, <<5, 5>>, <<9, 4>>, <<12, 1>>}, s \in {1, 4, 7}, x \in {0, 1}, y \in Keys}
Orth == {[kind |-> "orth", x |-> x, S |-> s, key |-> y] :
          x \in {[re |-> <<1, 0, 0>>, im |-> <<0, 0, 0>>], [re |-> <<3, 4>>, im |-> <<0, 0>>], [re |-> <<1, -2, 2, 5>>, im |-> <<0, 0, 0, 0>>],
                 [re |-> <<1, 0>>, im |-> <<0, 1>>], [re |-> <<1, 2, -1>>, im |-> <<2, 0, 3>>]}, s \in {1, 4}, y \in Keys}
Sub == {[kind |-> "sub", N |-> h[1], D |-> h[2], K |-> h[3], n |-> n, key |-> y] : h \in {<<4, 2, 3>>, <<6, 3, 2>>, <<5, 5, 1>>, <<7, 1, 4>>}, n \in {1, 3}, y \in Keys}
Ang == {[kind |-> "ang", m |-> m, N |-> h[1], D |-> h[2], t |-> t, key |-> y] : m \in {2, 3}, h \in {<<3, 1>>, <<6, 2>>, <<12, 4>>, <<10, 3>>}, t \in {0, 5, 10, 15, 30, 45, 60, 75, 90}, y \in Keys}
Stat == {[kind |-> "stat", f |-> f, key |-> y] : f \in {"normal", "biuniform", "spikes", "blocks", "places", "blockplaces", "indexplaces"}, y \in {0, 1}}
Items == {d \in Sig \cup Blk \cup BlkBad \cup Idx \cup Orth \cup Sub \cup Ang \cup Stat : SigOK(d)}
(* drawing without replacement *)
VARIABLES item, drawn, rest
vars == <<item, drawn, rest>>
Small == item.kind = "sig" /\ item.f = "normal" /\ item.S = 1 /\ item.key = 0 /\ item.D <= 9
Init == item \in Items /\ drawn = {} /\ rest = IF item.kind = "sig" THEN 0..(item.D - 1) ELSE {}
Draw == Small /\ Cardinality(drawn) < item.K /\ \E i \in rest : drawn' = drawn \cup {i} /\ rest' = rest \ {i} /\ UNCHANGED item
Out == drawn = {} /\ Emit /\ PrintT(<<"CASE", ToJson(item)>>) /\ UNCHANGED vars
Next == Draw \/ Out
Spec == Init /\ [][Next]_vars
Drawing == item.kind = "sig" => /\ drawn \cap rest = {} /\ drawn \cup rest = 0..(item.D - 1)
                                /\ Cardinality(drawn) + Cardinality(rest) = item.D /\ Cardinality(drawn) <= item.K
(* three unit vectors at a common angle: a1 = e1, b1 = c e1 + s e2, c1 = c e1 + c tan(t/2) e2 + r e3 *)
SinDeg(t) == CosDeg(90 - t)
SinOf(t) == ISqrt(Q * Q - CosDeg(t) * CosDeg(t))
ThreeOK == (item.kind = "ang" /\ item.t \in 5..89) =>
   LET c == CosDeg(item.t)  s == SinOf(item.t)  h == (c * (Q - c)) \div s  rr == Q * Q - c * c - h * h IN
      rr > 0 /\ Near(FQ(c, c) + FQ(s, h), c, 30)
=============================================================================
