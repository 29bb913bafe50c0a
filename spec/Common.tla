------------------------------- MODULE Common -------------------------------
(* Helpers shared by the specifications of the unlynx protocols.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt

\* Cases and rejections leave TLC as single printed strings "TAG {json}".
Emit(tag, v) == PrintT(tag \o " " \o ToJson(v))

Reject(id, why) == PrintT("REJECT " \o ToJson([id |-> id, why |-> why]))

Has(r, f) == f \in DOMAIN r

SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)

\* Vectors of different lengths: a missing attribute counts as zero.
At(v, i) == IF i <= Len(v) THEN v[i] ELSE 0
PadAdd(a, b) == [i \in 1..(IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)) |-> At(a, i) + At(b, i)]
SameVec(a, b) == \A i \in 1..(IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)) : At(a, i) = At(b, i)

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

\* Multiset (bag) equality of two sequences.
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(s, t) == /\ Len(s) = Len(t)
                 /\ \A x \in Range(s) : Count(s, x) = Count(t, x)

\* Every real-code observation that crashed or did not terminate is rejected.
Dead(o) == \/ (Has(o, "crash") /\ o.crash)
           \/ (Has(o, "hang") /\ o.hang)
DeadWhy(o) == IF Has(o, "crash") THEN "crash" ELSE "does not terminate"

\* n-th chunk boundary interesting sizes used by several specifications: the code works in
\* batches of 100 elements.
BatchSizes == {0, 1, 2, 99, 100, 101, 199, 200, 201}
=============================================================================
