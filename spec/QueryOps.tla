------------------------------ MODULE QueryOps ------------------------------
(* What a query written on the command line means. Texts are sequences of characters. *)
EXTENDS Common
Blank == {" ", "\t", "\n", "\r", "\f"}
Digit == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Text(chars) == FoldLeft(LAMBDA a, b : a \o b, "", chars)
NoBlanks(t) == SelectSeq(t, LAMBDA c : c \notin Blank)
Digits(t) == Len(t) > 0 /\ \A i \in DOMAIN t : t[i] \in Digit
RECURSIVE SkipBlanks(_)
SkipBlanks(t) == IF Len(t) > 0 /\ t[1] \in Blank THEN SkipBlanks(Tail(t)) ELSE t
RECURSIVE SkipZeros(_)
SkipZeros(t) == IF Len(t) > 1 /\ t[1] = "0" THEN SkipZeros(Tail(t)) ELSE t
SplitComma(t) == FoldLeft(LAMBDA acc, c : IF c = "," THEN Append(acc, <<>>)
                                          ELSE [acc EXCEPT ![Len(acc)] = Append(@, c)], << <<>> >>, t)
\* ---- numbers: at most 9223372036854775807
Val(c) == CHOOSE n \in 0..9 : ToString(n) = c
Largest == <<9, 2, 2, 3, 3, 7, 2, 0, 3, 6, 8, 5, 4, 7, 7, 5, 8, 0, 7>>
LargestText == [i \in DOMAIN Largest |-> ToString(Largest[i])]
InRange(t) == LET d == SkipZeros(t)
                  n == [i \in DOMAIN d |-> Val(d[i])]
                  diff == {i \in DOMAIN d : n[i] # Largest[i]}
              IN \/ Len(d) < 19
                 \/ Len(d) = 19 /\ (diff = {} \/ LET i == Min(diff) IN n[i] < Largest[i])
IsNum(t) == Digits(t) /\ InRange(t)
IsNeg(t) == Len(t) > 1 /\ t[1] = "-" /\ IsNum(Tail(t))
IsAttr(t, letter) == Len(t) > 1 /\ t[1] = letter /\ Digits(Tail(t))
CountItem == <<"c", "o", "u", "n", "t">>
\* is t the i-th item of a list of this kind? strict excludes negative values
Item(kind, i, t, strict) ==
  CASE kind = "sum" -> IsAttr(t, "s") \/ t = CountItem
    [] kind = "groupBy" -> IsAttr(t, "g")
    [] kind = "where" -> IF i % 2 = 1 THEN IsAttr(t, "w") ELSE IsNum(t) \/ (~strict /\ IsNeg(t))
Braced(t) == Len(t) > 1 /\ t[1] = "{" /\ t[Len(t)] = "}"
Inner(t) == SubSeq(t, 2, Len(t) - 1)
Even(kind, items) == kind = "where" => Len(items) % 2 = 0
\* the grammar: blanks may follow commas, nothing else
Strict(kind, t) ==
  /\ Braced(t)
  /\ LET items == SplitComma(Inner(t)) IN
     /\ Even(kind, items)
     /\ \A i \in DOMAIN items : Item(kind, i, IF i = 1 THEN items[1] ELSE SkipBlanks(items[i]), TRUE)
\* what a reader may also take: blanks elsewhere, empty braces, negative values
Loose(kind, t) ==
  LET b == NoBlanks(t) IN
  /\ Braced(b)
  /\ \/ Len(b) = 2
     \/ LET items == SplitComma(Inner(b)) IN
        /\ Even(kind, items)
        /\ \A i \in DOMAIN items : Item(kind, i, items[i], FALSE)
ListClass(kind, t) == IF Strict(kind, t) THEN "exact" ELSE IF Loose(kind, t) THEN "loose" ELSE "bad"
\* the items of a list that is not bad
Items(t) == LET b == NoBlanks(t) IN IF Len(b) <= 2 THEN <<>> ELSE SplitComma(Inner(b))
\* ---- the whole query q: sum, where, groupBy (texts), pred, count
Classes(q) ==
  {IF q.sum = <<>> THEN "bad" ELSE ListClass("sum", q.sum)}
  \cup (IF q.where = <<>> THEN {} ELSE {ListClass("where", q.where)})
  \cup (IF q.groupBy = <<>> THEN {} ELSE {ListClass("groupBy", q.groupBy)})
  \cup (IF (q.where = <<>>) = (q.pred = "") THEN {} ELSE {"bad"})
  \cup (LET c == CountItem \in Range(Items(q.sum))
        IN IF q.count = c THEN {} ELSE IF c THEN {"loose"} ELSE {"bad"})
Class(q) == LET c == Classes(q) IN IF "bad" \in c THEN "bad" ELSE IF "loose" \in c THEN "loose" ELSE "exact"
Names(t) == LET s == Items(t) IN [i \in DOMAIN s |-> Text(s[i])]
Number(t) == IF t[1] = "-" /\ SkipZeros(Tail(t)) # <<"0">> THEN "-" \o Text(SkipZeros(Tail(t)))
             ELSE IF t[1] = "-" THEN "0" ELSE Text(SkipZeros(t))
Pairs(t) == LET s == Items(t) IN [i \in 1..(Len(s) \div 2) |-> [name |-> Text(s[2 * i - 1]), value |-> Number(s[2 * i])]]
Survey(q) == [sum |-> Names(q.sum), where |-> Pairs(q.where), groupBy |-> Names(q.groupBy),
              pred |-> q.pred, count |-> q.count, proofs |-> q.proofs]
=============================================================================
