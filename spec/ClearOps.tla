------------------------------ MODULE ClearOps ------------------------------
(* Data in clear: a response is [g, ge, w, we, a, ae], grouping, filter and          *)
(* aggregating values in clear and to be encrypted. Only responses none of whose     *)
(* filter values is 0 match; the matching ones are summed per group.                 *)
EXTENDS Common
Matches(r) == \A x \in Range(r.w) \cup Range(r.we) : x # 0
GroupOf(r) == <<r.g, r.ge, r.w, r.we>>
AddVec(a, b) == IF a = <<>> THEN b ELSE [i \in DOMAIN a |-> a[i] + b[i]]
Groups(rows) == {GroupOf(rows[i]) : i \in {j \in DOMAIN rows : Matches(rows[j])}}
SumA(rows, k) == FoldLeft(LAMBDA s, r : IF Matches(r) /\ GroupOf(r) = k THEN AddVec(s, r.a) ELSE s, <<>>, rows)
SumAe(rows, k) == FoldLeft(LAMBDA s, r : IF Matches(r) /\ GroupOf(r) = k THEN AddVec(s, r.ae) ELSE s, <<>>, rows)
\* res is the sums of rows: every group once, nothing else
SumsOk(rows, res) ==
  /\ Len(res) = Cardinality(Groups(rows))
  /\ {GroupOf(res[i]) : i \in DOMAIN res} = Groups(rows)
  /\ \A i \in DOMAIN res : LET k == GroupOf(res[i]) IN res[i].a = SumA(rows, k) /\ res[i].ae = SumAe(rows, k)
=============================================================================
