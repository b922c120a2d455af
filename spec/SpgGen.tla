------------------------------- MODULE SpgGen -------------------------------
EXTENDS Spg, Json
CONSTANTS Deep, Emit
H2 == {<< <<1, 0>>, <<0, 40>> >>, << <<4, 1>>, <<1, 3>> >>, << <<10, 9>>, <<9, 10>> >>, << <<1, 1>>, <<1, 1>> >>, << <<1, 0>>, <<0, -1>> >>}
H3 == {<< <<2, -1, 0>>, <<-1, 2, -1>>, <<0, -1, 2>> >>, << <<9, 2, 1>>, <<2, 5, -2>>, <<1, -2, 3>> >>}
Funs == {[f |-> "quad", H |-> H, b |-> b] : H \in H2, b \in {<<1, 2>>, <<-3, 5>>, <<0, 0>>}}
        \cup {[f |-> "quad", H |-> H, b |-> b] : H \in H3, b \in {<<1, -2, 3>>, <<4, 4, -1>>}}
        \cup {[f |-> "quart", H |-> <<>>, b |-> b] : b \in {<<1, 8>>, <<0, -1>>, <<1, 2, -3>>}}
Dim(f) == Len(f.b)
E0 == [s |-> "free", l |-> <<>>, u |-> <<>>, r |-> 0]
Sets(n) == {E0, [E0 EXCEPT !.s = "pos"], [E0 EXCEPT !.s = "ball", !.r = 2],
            [E0 EXCEPT !.s = "box", !.l = [i \in 1..n |-> -1], !.u = [i \in 1..n |-> IF i = 1 THEN 2 ELSE 3]]}
Starts(n) == {[i \in 1..n |-> 0], [i \in 1..n |-> 4 - 3 * i], [i \in 1..n |-> IF i = 1 THEN -3 ELSE 5]}
Opts == {[mem |-> 1, gam |-> 3000, otol |-> 1, ptol |-> 0, calls |-> 2000], [mem |-> 3, gam |-> 1, otol |-> 100, ptol |-> 0, calls |-> 2000],
         [mem |-> 2, gam |-> 3000, otol |-> 1, ptol |-> 200, calls |-> 2000], [mem |-> 10, gam |-> 1000, otol |-> 1, ptol |-> 0, calls |-> 7]}
Bounded(f, c) == c.s \in {"ball", "box"} \/ f.f = "quart" \/ f.H \notin {<< <<1, 1>>, <<1, 1>> >>, << <<1, 0>>, <<0, -1>> >>}
Items == {d \in [f : Funs, c : UNION {Sets(n) : n \in {2, 3}}, x0 : UNION {Starts(n) : n \in {2, 3}}, o : Opts] :
            /\ Len(d.x0) = Dim(d.f) /\ (d.c.s = "box" => Len(d.c.l) = Dim(d.f)) /\ Bounded(d.f, d.c)
            /\ (Deep \/ d.o.mem \in {1, 3} \/ d.x0[1] = 1)}
VARIABLES item, st
vars == <<item, st>>
Most == 10
(* the first step is a gradient step no longer than one over the l1 norm of the gradient *)
Start(d) == LET x == Proj(d.c, VScale(Q, d.x0))  g == Grad(d.f, x)  f == Val(d.f, x)  dd == VSub(Proj(d.c, VSub(x, g)), x)  dl == QDot(g, dd)
                n1 == SumS([i \in 1..Len(g) |-> Abs(g[i])])  t == IF n1 <= Q THEN Q ELSE QDiv(Q, n1)  dt == Sc1(t, dd)
                r == Search(d.f, x, dt, f, f, d.o.gam, FQ(t, dl), Most)  xn == VAdd(x, Sc1(r.a, dt)) IN
  [x |-> xn, g |-> Grad(d.f, xn), xp |-> x, gp |-> g, h |-> Push([i \in 1..d.o.mem |-> f], r.f), delta |-> dl, it |-> 1, calls |-> 1 + r.n, ok |-> r.ok, f0 |-> f]
Grow(s, y) == LET m == Max2(MaxAbs(s), MaxAbs(y))  k == IF m = 0 THEN 1 ELSE Max2(1, 100000 \div m) IN <<VScale(k, s), VScale(k, y)>>
Step(d, s) == LET gr == Grow(VSub(s.x, s.xp), VSub(s.g, s.gp))  lam == Spectral(gr[1], gr[2])
                  dd == VSub(Proj(d.c, VSub(s.x, Sc1(lam, s.g))), s.x)  dl == QDot(s.g, dd)
                  r == Search(d.f, s.x, dd, MaxS(s.h), s.h[1], d.o.gam, dl, Most)  xn == VAdd(s.x, Sc1(r.a, dd)) IN
  [x |-> xn, g |-> Grad(d.f, xn), xp |-> s.x, gp |-> s.g, h |-> Push(s.h, r.f), delta |-> dl, it |-> s.it + 1, calls |-> s.calls + r.n, ok |-> r.ok, f0 |-> s.f0]
Running(d, s) == s.delta <= -Max2(d.o.ptol, 40) /\ OptRes(d.c, s.x, s.g) >= Max2(d.o.otol, 20) /\ s.calls < d.o.calls /\ s.it < 12
Init == item \in Items /\ st = <<>>
Begin == st = <<>> /\ (\E s \in {Start(item)} : st' = <<s>>) /\ UNCHANGED item /\ (Emit => PrintT(<<"CASE", ToJson(item)>>))
Iterate == st # <<>> /\ Running(item, st[1]) /\ (\E s \in {Step(item, st[1])} : st' = <<s>>) /\ UNCHANGED item
Next == Begin \/ Iterate
Spec == Init /\ [][Next]_vars
Feasible == st # <<>> => Inside(item.c, st[1].x, 20) /\ Inside(item.c, st[1].xp, 20)
Descent == st # <<>> => st[1].delta <= 60
History == st # <<>> => Len(st[1].h) = item.o.mem /\ Near(st[1].h[1], Val(item.f, st[1].x), 40 + MaxAbs(st[1].g) \div 400)
NeverAboveStart == st # <<>> => MaxS(st[1].h) <= st[1].f0 + 40
SearchEnds == st # <<>> => (st[1].ok \/ st[1].delta > -60)
=============================================================================
