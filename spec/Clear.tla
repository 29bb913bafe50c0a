------------------------------- MODULE Clear --------------------------------
(* Expected results asked for again and again from the same data, with different     *)
(* numbers of repetitions. A row is [k |-> group, m |-> does it match, v |-> value].  *)
(* Wrong designs: scaling the data itself, forgetting the repetitions, keeping what   *)
(* does not match, counting only one response per group. Case generator.              *)
EXTENDS Common
CONSTANTS MaxRows, MaxCalls, Reps, Design, Emitting
ASSUME Design \in {"right", "inplace", "norep", "unmatched", "latest"}
VARIABLES data, orig, calls, over
vars == <<data, orig, calls, over>>
Rows == [k : {1, 2}, m : BOOLEAN, v : {0, 1, -2}]
Init == /\ data \in UNION {[1..n -> Rows] : n \in 0..MaxRows}
        /\ orig = data /\ calls = <<>> /\ over = FALSE
Times(r) == IF r > 1 THEN r ELSE 1
Kept(d) == SelectSeq(d, LAMBDA r : r.m)
Sum(d, k) == FoldLeft(LAMBDA s, r : IF r.k # k THEN s ELSE IF Design = "latest" THEN r.v ELSE s + r.v, 0, d)
True(d, k) == FoldLeft(LAMBDA s, r : IF r.k = k THEN s + r.v ELSE s, 0, d)
Result(d) == LET u == IF Design = "unmatched" THEN d ELSE Kept(d)
             IN [k \in {r.k : r \in Range(u)} |-> Sum(u, k)]
Scaled(d, f) == [i \in DOMAIN d |-> [d[i] EXCEPT !.v = @ * f]]
Call(r) == /\ Len(calls) < MaxCalls /\ ~over
           /\ LET s == Scaled(data, IF Design = "norep" THEN 1 ELSE Times(r))
              IN /\ calls' = Append(calls, [rep |-> r, res |-> Result(s)])
                 /\ data' = IF Design = "inplace" THEN s ELSE data
           /\ UNCHANGED <<orig, over>>
Stop == /\ calls # <<>> /\ ~over /\ over' = TRUE /\ UNCHANGED <<data, orig, calls>>
Next == Stop \/ \E r \in Reps : Call(r)
Spec == Init /\ [][Next]_vars
Exact == \A c \in Range(calls) : c.res = [k \in {r.k : r \in Range(Kept(orig))} |-> True(Kept(orig), k) * Times(c.rep)]
Untouched == data = orig
EmitCase == (Emitting /\ over) => Emit("CASE", [data |-> data, reps |-> [i \in DOMAIN calls |-> calls[i].rep]])
=============================================================================
