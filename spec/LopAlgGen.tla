------------------------------ MODULE LopAlgGen ------------------------------
(* Explores the operator algebra machine: exhaustively to depth Deep, and along *)
(* Walks pseudo-random programs of length WLen.  Emits programs to replay.      *)
EXTENDS LopAlg, Json
CONSTANTS Deep, Walks, WLen, Seed, Emit
VARIABLES ia, ib, prog, s, w
vars == <<ia, ib, prog, s, w>>
Lcg(x) == ((x * 1103 + 12347) % 65521)
RECURSIVE Mix(_, _)
Mix(x, k) == IF k = 0 THEN x ELSE Mix(Lcg(x), k - 1)
NL == Len(Leaves)
Out(p, a, b) == PrintT(<<"CASE", ToJson([ia |-> a, ib |-> b, prog |-> p])>>)
Init0 == \/ /\ w = 0 /\ ia \in 1..NL /\ ib \in 1..NL /\ prog = <<>>
           /\ s = <<CVal(Leaves[ia]), CVal(Leaves[ib])>>
        \/ /\ w \in 1..Walks /\ prog = <<>>
           /\ ia = (Mix(w * 31 + Seed * 977, 5) % NL) + 1
           /\ ib = (Mix(w * 17 + Seed * 131, 7) % NL) + 1
           /\ s = <<CVal(Leaves[ia]), CVal(Leaves[ib])>>
Binary(o) == o \in {"add", "sub", "compose", "hcat", "block", "block3"}
Exhaustive == /\ w = 0 /\ Len(prog) < Deep
              /\ LET E == TLCEval(Enabled(s)) IN \E k \in 1..Len(E) :
                   LET st == TLCEval(E[k])  t == TLCEval(Step(s, st)) IN
                   /\ Fits(t)
                   /\ prog' = Append(prog, st) /\ s' = t
                   /\ (Emit /\ (Binary(st.op) \/ ia = ib)) => Out(prog', ia, ib)
              /\ UNCHANGED <<ia, ib, w>>
(* the first of the enabled steps, counted cyclically from a pseudo-random one, that keeps numbers small *)
RECURSIVE FirstFit(_, _, _, _)
FirstFit(E, st0, k, left) == IF left = 0 THEN [op |-> "swap"]
   ELSE IF Fits(TLCEval(Step(st0, E[k]))) THEN E[k] ELSE FirstFit(E, st0, (k % Len(E)) + 1, left - 1)
Pick0(E, st0, r) == FirstFit(E, st0, (r % Len(E)) + 1, Len(E))
(* every other step prefers a binary operation when one is possible *)
Pick(E, st0, r) == LET EB == TLCEval(SelectSeq(E, LAMBDA st : Binary(st.op))) IN
   IF (r \div 16) % 2 = 0 /\ Len(EB) > 0 THEN Pick0(EB, st0, r) ELSE Pick0(E, st0, r)
Walk == /\ w > 0 /\ Len(prog) < WLen
        /\ \E st \in {Pick(TLCEval(Enabled(s)), s, Mix(w * 7 + Seed * 37 + Len(prog) * 1009, 4 + Len(prog)))} :
              /\ prog' = Append(prog, st) /\ s' = TLCEval(Step(s, st))
              /\ (Emit /\ Len(prog') = WLen) => Out(prog', ia, ib)
        /\ UNCHANGED <<ia, ib, w>>
Next == Exhaustive \/ Walk
Init == (Emit => PrintT(<<"LEAVES", ToJson(Leaves)>>)) /\ Init0
Spec == Init /\ [][Next]_vars
(* ---- laws of the model *)
ShapeLaw == LET a == s[1] IN Len(a.re) = a.m /\ Len(a.im) = a.m /\ \A i \in 1..a.m : Len(a.re[i]) = a.n /\ Len(a.im[i]) = a.n
RealLaw == s[1].real => \A i \in 1..s[1].m : \A j \in 1..s[1].n : s[1].im[i][j] = 0
Core(v) == <<v.m, v.n, v.re, v.im>>
AdjLaw == LET a == s[1]  b == s[2] IN
   /\ Core(CT(CT(a, -1), -1)) = Core(a)
   /\ a.n = b.m => Core(CT(CMul(a, b), -1)) = Core(CMul(CT(b, -1), CT(a, -1)))
GramLaw == (prog # <<>> /\ prog[Len(prog)].op \in {"gram", "frame"}) => Core(CT(s[1], -1)) = Core(s[1])
=============================================================================
