------------------------------ MODULE CodecOps ------------------------------
(* Values are rows of parts of numbers. What a reader may return for bytes that *)
(* are exactly, or no longer, what a writer wrote.                              *)
EXTENDS Common

RowShape(r) == [j \in DOMAIN r |-> Len(r[j])]
\* the announced lengths: "any" (nothing announced), "none" (no value has that shape), "row" (the shape of every
\* row), "prefix" (of the first parts), "rows" (of the row or part of every row)
Announced(k, a, v) ==
  CASE k = "any"    -> TRUE
    [] k = "none"   -> FALSE
    [] k = "row"    -> \A i \in DOMAIN v : RowShape(v[i]) = a[1]
    [] k = "prefix" -> \A i \in DOMAIN v : Len(v[i]) >= Len(a[1]) /\ SubSeq(RowShape(v[i]), 1, Len(a[1])) = a[1]
    [] k = "rows"   -> Len(v) = Len(a) /\ \A i \in DOMAIN v : RowShape(v[i]) = a[i]

\* a part that is read back from nothing may be missing altogether only if the format says so: values are equal
Same(v, w) == v = w

\* values a format has no representation for may be refused by the writer
Slash == 47
Refusable(f, v) ==
  CASE f = "card" -> \/ \E i, j \in DOMAIN v : RowShape(v[i]) # RowShape(v[j])
                     \/ \E i \in DOMAIN v : v[i] = << <<>>, <<>>, <<>> >>
    [] f = "prd"  -> \E j \in DOMAIN v[1] : j > 4 /\ Slash \in Range(v[1][j])
    [] OTHER -> FALSE
=============================================================================
