------------------------------- MODULE Noise -------------------------------
EXTENDS NoiseOps
CONSTANTS MaxRep, Len0, OnlyPositive
VARIABLES reps, n, list
vars == <<reps, n, list>>
RepSeqs == {r \in [1..Len0 -> 1..MaxRep] : \A i \in 1..(Len0 - 1) : r[i] >= r[i + 1]}
Gen(m, r) == IF OnlyPositive THEN [i \in 1..m |-> Abs(NoiseList(m, r)[i])] ELSE NoiseList(m, r)
Init == reps \in RepSeqs /\ n \in 0..Upto(reps, Len0 - 1) /\ list = <<>>
Next == list = <<>> /\ list' = Gen(n, reps) /\ UNCHANGED <<reps, n>>
Spec == Init /\ [][Next]_vars
Right == list # <<>> => /\ Len(list) = n
                        /\ Outwards(list) /\ Symmetric(list) /\ Decreasing(list) /\ NoGap(list)
=============================================================================
