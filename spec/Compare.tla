------------------------------ MODULE Compare -------------------------------
(* Comparing an obtained with an expected result, in whatever order the groups come:  *)
(* equal exactly when they have the same rows. Every pair of small results is a case. *)
EXTENDS Common
CONSTANTS MaxLen, Design, Emitting
ASSUME Design \in {"right", "oneway", "lengths", "nonempty", "ordered"}
VARIABLES x, y
vars == <<x, y>>
Rows == {<<1, 0>>, <<1, 1>>, <<2, 0>>}
Results == UNION {[1..n -> Rows] : n \in 0..MaxLen}
Init == x \in Results /\ y \in Results
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Within(a, b) == \A r \in Range(a) : r \in Range(b)
Verdict == CASE Design = "right" -> Len(x) = Len(y) /\ \A r \in Range(x) : Count(x, r) = Count(y, r)
             [] Design = "oneway" -> Within(x, y)
             [] Design = "lengths" -> Len(x) = Len(y) /\ Within(x, y)
             [] Design = "nonempty" -> x # <<>> /\ SameBag(x, y)
             [] Design = "ordered" -> x = y
Right == Verdict <=> SameBag(x, y)
EmitCase == Emitting => Emit("CASE", [x |-> x, y |-> y])
=============================================================================
