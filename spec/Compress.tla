------------------------------ MODULE Compress ------------------------------
(* A shuffle proof covers rows of several columns by compressing every row with  *)
(* one challenge per column. Over the integers modulo P: two rows, two columns.  *)
(* How many challenges make a wrong list pass as a shuffle of the original?       *)
(* Design "bound": the challenges are drawn after both lists; "known": before     *)
(* the shuffled list is chosen; "same": one challenge for both columns.           *)
EXTENDS Common
CONSTANTS P, Design
ASSUME Design \in {"bound", "known", "same"}
VARIABLES orig, out
Z == 0..(P - 1)
Rows == [1..2 -> Z \X Z]
Es == IF Design = "same" THEN {<<a, a>> : a \in Z} ELSE Z \X Z
Comp(row, e) == (row[1] * e[1] + row[2] * e[2]) % P
Perm(a, b) == \/ a[1] = b[1] /\ a[2] = b[2]
              \/ a[1] = b[2] /\ a[2] = b[1]
Passes(e) == Perm([i \in 1..2 |-> Comp(orig[i], e)], [i \in 1..2 |-> Comp(out[i], e)])
Init == orig \in Rows /\ out \in Rows
Next == FALSE /\ UNCHANGED <<orig, out>>
Spec == Init /\ [][Next]_<<orig, out>>
Complete == Perm(orig, out) => \A e \in Es : Passes(e)
\* at most one of P challenges per permutation (P of P^2 vectors)
Sound == ~Perm(orig, out) =>
  Cardinality({e \in Es : Passes(e)}) <= (CASE Design = "bound" -> 2 * P [] Design = "known" -> 1 [] OTHER -> 2)
=============================================================================
