------------------------------ MODULE DataFile ------------------------------
(* The file of test data: per provider a heading line, then a line per kind of        *)
(* attribute of every response; no attribute is an empty line. What is read back is   *)
(* what was written.                                                                  *)
EXTENDS Common
CONSTANTS Ids, MaxRows, Kinds, Design
ASSUME Design \in {"right", "noblank", "lastlost", "phantom", "short"}
VARIABLES data, file, read
vars == <<data, file, read>>
Lines == {<<>>, <<0>>, <<1, 0>>}
Entries == [1..Kinds -> Lines]
Data == UNION {[s -> UNION {[1..n -> Entries] : n \in 0..MaxRows}] : s \in SUBSET Ids}
Init == data \in Data /\ file = <<>> /\ read = "no"
Flat(rows) == FoldLeft(LAMBDA s, e : s \o [i \in 1..Kinds |-> [head |-> FALSE, id |-> "", c |-> e[i]]], <<>>, rows)
Block(id, rows) == <<[head |-> TRUE, id |-> id, c |-> <<>>]>> \o Flat(rows)
Orders == {s \in [1..Cardinality(DOMAIN data) -> DOMAIN data] : Range(s) = DOMAIN data}
Write == /\ file = <<>> /\ read = "no"
         /\ \E s \in Orders : file' = FoldLeft(LAMBDA f, i : f \o Block(s[i], data[s[i]]), <<>>, [i \in DOMAIN s |-> i])
         /\ read' = "written" /\ UNCHANGED data
\* the reader: heading lines close the previous block
Used(f) == IF Design = "noblank" THEN SelectSeq(f, LAMBDA l : l.head \/ l.c # <<>>) ELSE f
Heads(f) == {i \in DOMAIN f : f[i].head}
EndOf(f, i) == LET h == {j \in Heads(f) : j > i} IN IF h = {} THEN Len(f) ELSE (CHOOSE j \in h : \A k \in h : j <= k) - 1
RowsOf(f, i) == LET n == (EndOf(f, i) - i) \div Kinds IN [r \in 1..n |-> [k \in 1..Kinds |-> IF Design = "short" /\ k = Kinds THEN SubSeq(f[i + (r - 1) * Kinds + k].c, 1, 1) ELSE f[i + (r - 1) * Kinds + k].c]]
Result(f) ==
  LET g == Used(f)
      hs == IF Design = "lastlost" THEN {i \in Heads(g) : \E j \in Heads(g) : j > i} ELSE Heads(g)
      ids == {g[i].id : i \in hs} \cup (IF Design = "phantom" /\ hs = {} THEN {""} ELSE {})
  IN [d \in ids |-> IF \E i \in hs : g[i].id = d THEN RowsOf(g, CHOOSE i \in hs : g[i].id = d) ELSE <<>>]
Read == /\ read = "written" /\ read' = "read" /\ UNCHANGED <<data, file>>
Next == Write \/ Read
Spec == Init /\ [][Next]_vars
Same == read = "read" => Result(file) = data
=============================================================================
