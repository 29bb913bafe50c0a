------------------------------ MODULE ConvOps ------------------------------
(* The list forms that the protocols work on. A response is a record of three     *)
(* vectors: grouping attributes g, WHERE attributes w and aggregating attributes  *)
(* a; for shuffling a list of them becomes a matrix, for key switching (g and a)   *)
(* and tagging (w and g) one vector. Numbers stand for ciphertexts; 0 is an        *)
(* encryption of zero that was not among the given ones.                           *)
EXTENDS Common

Row(r) == r.g \o r.w \o r.a
Flat(rs) == FoldLeft(LAMBDA acc, r : acc \o r.g \o r.a, <<>>, rs)
AllZero(v) == \A i \in DOMAIN v : v[i] = 0

\* A list that stands for the list given: each response once, intact; a response added to it (a shuffle needs
\* two) must be one that changes no sum and no group and satisfies the same predicates as a given one.
Stands(given, got) ==
  LET extra == SelectSeq(got, LAMBDA r : ~ \E i \in DOMAIN given : given[i] = r) IN
  /\ \A i \in DOMAIN given : Count(got, given[i]) = Count(given, given[i])
  /\ \A i \in DOMAIN extra : /\ AllZero(extra[i].a)
                             /\ \E j \in DOMAIN given : /\ given[j].g = extra[i].g
                                                        /\ given[j].w = extra[i].w
                                                        /\ Len(given[j].a) = Len(extra[i].a)
=============================================================================
