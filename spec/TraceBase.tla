----------------------------- MODULE TraceBase -----------------------------
(* Consumes a recorded trace line by line.  Verdict(prev, ev) is the set of  *)
(* names of the specification clauses that the event violates, given the     *)
(* event before it: total, so every line of the trace is judged.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
CONSTANT Verdict(_, _)
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, prev, bad
TraceInit == l = 1 /\ prev = <<>> /\ bad = <<>>
TraceNext ==
  /\ l <= Len(Trace)
  /\ \E v \in {Verdict(prev, Trace[l])} :        \* singleton: forces one evaluation
     \E b \in {IF v = {} THEN bad ELSE Append(bad, [line |-> l, clauses |-> SetToSeq(v)])} :
        /\ l' = l + 1
        /\ prev' = Trace[l]
        /\ bad' = b
        /\ (l = Len(Trace) => JsonSerialize(IOEnv.OUT, [n |-> l, bad |-> b]))
TraceSpec == TraceInit /\ [][TraceNext]_<<l, prev, bad>>
(* clause helper: the name if the condition fails *)
C(name, cond) == IF cond THEN {} ELSE {name}
=============================================================================
