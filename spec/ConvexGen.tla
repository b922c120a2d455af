----------------------------- MODULE ConvexGen -----------------------------
EXTENDS Convex, Json
CONSTANTS What, Deep, Emit
Pts(n) == CASE n = 1 -> [1..1 -> -6..6]
  [] n = 2 -> [1..2 -> IF Deep THEN -6..6 ELSE {-6, -4, -3, -1, 0, 2, 3, 5}]
  [] n = 3 -> [1..3 -> IF Deep THEN {-5, -4, -2, 0, 1, 3, 6} ELSE {-5, -2, 0, 1, 4}]
  [] n = 4 -> [1..4 -> {-3, 0, 1, 4}]
D0 == [k |-> "none", q |-> 0, b |-> <<>>, l |-> <<>>, u |-> <<>>, A |-> <<>>, null |-> <<>>, n |-> 0]
Qs == IF Deep THEN {1, 2, 3, 4, 6, 10} ELSE {1, 2, 5, 10}
Bs(n) == {<<>>} \cup (CASE n = 1 -> {<<3>>} [] n = 2 -> {<<2, -4>>, <<1, 3>>} [] n = 3 -> {<<2, -2, 1>>} [] n = 4 -> {<<0, 1, -2, 4>>})
Sets ==
   {[D0 EXCEPT !.k = kk, !.n = n] : kk \in {"zero", "identity"}, n \in {1, 3}}
   \cup {[D0 EXCEPT !.k = "singleton", !.n = Len(b), !.b = b] : b \in {<<3>>, <<2, -4>>, <<1, 0, 5>>}}
   \cup {[D0 EXCEPT !.k = "singleton", !.n = 3, !.b = <<4>>]}
   \cup ({[D0 EXCEPT !.k = "box", !.n = 2, !.l = l, !.u = u] : l \in {<<>>, <<-2>>, <<-3, 1>>}, u \in {<<>>, <<2>>, <<4, 1>>}} \ {[D0 EXCEPT !.k = "box", !.n = 2]})
   \cup {[D0 EXCEPT !.k = "box", !.n = 3, !.l = <<0>>], [D0 EXCEPT !.k = "box", !.n = 3, !.l = <<-1, 0, 2>>, !.u = <<-1, 3, 4>>]}
   \cup {[D0 EXCEPT !.k = kk, !.n = n, !.q = q, !.b = b] : kk \in {"l1", "l2"}, n \in {1}, q \in Qs, b \in Bs(1)}
   \cup {[D0 EXCEPT !.k = kk, !.n = n, !.q = q, !.b = b] : kk \in {"l1", "l2"}, n \in {2}, q \in Qs, b \in Bs(2)}
   \cup {[D0 EXCEPT !.k = kk, !.n = n, !.q = q, !.b = b] : kk \in {"l1", "l2"}, n \in {3}, q \in Qs, b \in Bs(3)}
   \cup {[D0 EXCEPT !.k = kk, !.n = 4, !.q = q] : kk \in {"l1", "l2"}, q \in {3, 8}}
   \cup {[D0 EXCEPT !.k = kk, !.n = n, !.q = q] : kk \in {"linf", "ball", "upper"}, n \in {1, 2, 3}, q \in Qs}
   \cup {[D0 EXCEPT !.k = "conic", !.n = n] : n \in {2, 3, 4}}
   \cup {[D0 EXCEPT !.k = "affine", !.n = 2, !.A = << <<1, 2>> >>, !.b = b, !.null = << <<2, -1>> >>] : b \in {<<0>>, <<3>>, <<-4>>}}
   \cup {[D0 EXCEPT !.k = "affine", !.n = 3, !.A = << <<1, 1, 1>> >>, !.b = <<2>>, !.null = << <<1, -1, 0>>, <<1, 1, -2>> >>],
         [D0 EXCEPT !.k = "affine", !.n = 3, !.A = << <<1, 0, 2>>, <<0, 1, -1>> >>, !.b = <<2, -3>>, !.null = << <<-2, 1, 1>> >>],
         [D0 EXCEPT !.k = "affine", !.n = 2, !.A = << <<2, 1>>, <<1, 1>> >>, !.b = <<2, 1>>, !.null = <<>>]}
   \cup {[D0 EXCEPT !.k = kk, !.n = 2, !.q = q, !.A = << <<1, 2>>, <<0, 1>> >>, !.b = <<1, -1>>] : kk \in {"l1A", "l2A"}, q \in {2, 5}}
   \cup {[D0 EXCEPT !.k = kk, !.n = 3, !.q = 5, !.A = << <<1, -1, 2>>, <<0, 1, 1>> >>, !.b = <<0, 0>>] : kk \in {"l1A", "l2A"}}
   \cup {[D0 EXCEPT !.k = "boxaff", !.n = 2, !.l = l, !.u = u, !.A = << a >>, !.q = q]
          : l \in {<<>>, <<-3, 0>>}, u \in {<<>>, <<4, 3>>}, a \in {<<1, 2>>, <<1, -1>>}, q \in {0, 3}}
   \cup {[D0 EXCEPT !.k = "boxaff", !.n = 3, !.l = <<-2, -2, -2>>, !.u = <<4, 4, 4>>, !.A = << <<1, 1, 1>> >>, !.q = 2]}
(* ------------------------------ proximal functions ------------------------------ *)
F0 == [f |-> "none", w |-> <<>>, s |-> D0, n |-> 0]
Fs == {[F0 EXCEPT !.f = "zero", !.n = n] : n \in {1, 3}}
   \cup {[F0 EXCEPT !.f = ff, !.w = w, !.n = n] : ff \in {"l1", "l2", "l1_pos"}, w \in {<<1>>, <<2>>, <<3>>}, n \in {1, 2, 3}}
   \cup {[F0 EXCEPT !.f = ff, !.w = <<1, 4>>, !.n = 2] : ff \in {"l1", "l1_pos"}}
   \cup {[F0 EXCEPT !.f = "l1", !.w = <<2, 0, 5>>, !.n = 3]}
   \cup {[F0 EXCEPT !.f = "owl1", !.w = w, !.n = Len(w)] : w \in {<<2>>, <<4, 1>>, <<2, 2>>, <<3, 2, 1>>, <<6, 2, 1>>, <<2, 2, 2>>, <<5, 1, 1>>, <<4, 3, 2, 1>>, <<6, 6, 1, 1>>}}
   \cup {[F0 EXCEPT !.f = "owl1", !.w = <<2>>, !.n = 3]}
   \cup {[F0 EXCEPT !.f = "set", !.s = [D0 EXCEPT !.k = "l1", !.n = n, !.q = q], !.n = n] : n \in {2, 3}, q \in {2, 5}}
   \cup {[F0 EXCEPT !.f = "set", !.s = [D0 EXCEPT !.k = "l2", !.n = 2, !.q = q], !.n = 2] : q \in {2, 5}}
   \cup {[F0 EXCEPT !.f = "set", !.s = [D0 EXCEPT !.k = "box", !.n = 2, !.l = <<-2>>, !.u = <<3>>], !.n = 2]}
(* ------------------------------ smooth functions ------------------------------ *)
G0 == [f |-> "none", c |-> <<>>, P |-> <<>>, r |-> 0, q |-> 0, n |-> 0]
Gs == {[G0 EXCEPT !.f = "constant", !.c = <<c>>, !.n = 2] : c \in {0, 3}}
   \cup {[G0 EXCEPT !.f = ff, !.n = n] : ff \in {"entropy", "entropy_vg"}, n \in {1, 2, 3}}
   \cup {[G0 EXCEPT !.f = "huber", !.c = <<c>>, !.n = n] : c \in {1, 2, 3, 5}, n \in {1, 2, 3}}
   \cup {[G0 EXCEPT !.f = "moreau_l1", !.c = <<c>>, !.n = n] : c \in {1, 2, 4}, n \in {1, 2}}
   \cup {[G0 EXCEPT !.f = "linear", !.c = c, !.n = Len(c), !.r = r] : c \in {<<3>>, <<2, -1>>, <<1, 0, -4>>}, r \in {0, 3}}
   \cup {[G0 EXCEPT !.f = "quad", !.P = P, !.c = c, !.n = 2, !.r = r] :
          P \in {<< <<1, 0>>, <<0, 1>> >>, << <<2, 1>>, <<1, 3>> >>, << <<1, -2>>, <<-2, 0>> >>}, c \in {<<>>, <<3, -1>>}, r \in {0, 5}}
   \cup {[G0 EXCEPT !.f = "quad_error", !.P = P, !.c = c, !.n = 2] : P \in {<< <<1, 2>>, <<0, 1>>, <<-1, 1>> >>}, c \in {<<1, 0, -3>>, <<0, 0, 0>>}}
   \cup {[G0 EXCEPT !.f = "quad_error", !.P = << <<1, 2, -1>>, <<0, 1, 3>> >>, !.c = <<2, -1>>, !.n = 3]}
   \cup {[G0 EXCEPT !.f = "translate_quad", !.c = c, !.n = Len(c)] : c \in {<<3>>, <<2, -1>>}}
   \cup {[G0 EXCEPT !.f = "build_cubic", !.n = 2]}
   \cup {[G0 EXCEPT !.f = "dual_l1", !.c = <<c>>, !.q = mu, !.P = P, !.n = 2] : c \in {0, 2, 3}, mu \in {0, 1, 2}, P \in {<<>>, << <<3, -2>> >>}}
   \cup {[G0 EXCEPT !.f = "logdet", !.q = q, !.P = P, !.n = 2] : q \in {1, 2, 4}, P \in {<<>>, << <<1, -1>>, <<-1, 2>> >>}}
SPts(d) == IF d.f \in {"entropy", "entropy_vg"} THEN [1..d.n -> {1, 2, 4, 8}]
   ELSE IF d.f = "logdet" THEN {x \in [1..3 -> -3..6] : x[1] > 0 /\ x[1] * x[3] - x[2] * x[2] \in {1, 2, 4, 8}} ELSE Pts(d.n)
Items == CASE What = "proj" -> Sets [] What = "prox" -> Fs [] What = "smooth" -> Gs
VARIABLES item, done
vars == <<item, done>>
Init == item \in Items /\ done = FALSE
PtsOf(d) == SetToSeq(IF What = "smooth" THEN SPts(d) ELSE Pts(d.n))
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED item
        /\ (Emit => PrintT(<<"CASE", ToJson([d |-> item, pts |-> PtsOf(item)])>>))
Spec == Init /\ [][Next]_vars
(* ---- model level: the optimality conditions single out the nearest point.      *)
(* For every member z of the grid, z satisfies Nearest only for itself, and if a  *)
(* grid point z of the set satisfies Nearest(x, z) then no grid member is closer.  *)
HasNearest(d) == d.k \notin {"l1A", "l2A", "boxaff"}
SoundNearest == (What = "proj" /\ item.n <= 2 /\ HasNearest(item)) =>
   \A x \in Pts(item.n) : \A z \in GridSet(item.n) : (Member(item, z) /\ Nearest(item, x, Sc(z))) =>
      /\ Member(item, x) => z = x
      /\ \A w \in GridSet(item.n) : Member(item, w) => SqI(VSub(x, z)) <= SqI(VSub(x, w))
(* members are their own nearest point *)
FixedNearest == (What = "proj" /\ HasNearest(item)) => \A x \in Pts(item.n) : Member(item, x) => Nearest(item, x, Sc(x))
=============================================================================
