------------------------------- MODULE Query -------------------------------
(* The querier's command line: a text is written symbol by symbol (or a well-formed query is  *)
(* written and then edited), the client reads it with an automaton, strips and splits it, and  *)
(* submits a survey or refuses. Reading must agree with the grammar of QueryOps.              *)
EXTENDS QueryOps
CONSTANTS Mode,      \* "type": all short texts for the list Kind; "edit": well-formed queries, then edits
          Kind, Symbols, MaxLen, MaxEdits, Design, Emitting
VARIABLES q, edits, out
vars == <<q, edits, out>>
None == [done |-> FALSE, refused |-> FALSE, surveys |-> <<>>]
Refused == [done |-> TRUE, refused |-> TRUE, surveys |-> <<>>]
Sym(s) == IF s = "count" THEN CountItem ELSE IF s = "max" THEN LargestText ELSE IF s = "over" THEN [LargestText EXCEPT ![19] = "8"] ELSE IF s = "tab" THEN <<"\t">> ELSE IF s = "nl" THEN <<"\n">> ELSE <<s>>
\* ---- the client's reading of one list
\* automaton: open, first (right after the brace), sep (after a comma), letter, name (digits), number, closed;
\* c1..c4 inside the word count
Step(kind, st, c) ==
  LET letter == CASE kind = "sum" -> "s" [] kind = "where" -> "w" [] kind = "groupBy" -> "g"
      p == st.at
      go(x) == [st EXCEPT !.at = x]
      begin == IF kind = "where" /\ st.n % 2 = 1 THEN IF c \in Digit THEN go("number") ELSE go("bad")
               ELSE IF c = letter THEN go("letter") ELSE IF kind = "sum" /\ c = "c" THEN go("c1") ELSE go("bad")
      next == [at |-> "sep", n |-> st.n + 1]
      close == IF kind = "where" /\ st.n % 2 = 0 THEN go("bad") ELSE go("closed")
  IN CASE p = "open" -> IF c = "{" THEN go("first") ELSE IF Design = "unanchored" THEN st ELSE go("bad")
       [] p = "first" -> begin
       [] p = "sep" -> IF c \in Blank THEN st ELSE begin
       [] p = "letter" -> IF c \in Digit THEN go("name") ELSE go("bad")
       [] p \in {"name", "number"} -> IF c \in Digit THEN st ELSE IF c = "," THEN next ELSE IF c = "}" THEN close ELSE go("bad")
       [] p = "c1" -> IF c = "o" THEN go("c2") ELSE go("bad")
       [] p = "c2" -> IF c = "u" THEN go("c3") ELSE go("bad")
       [] p = "c3" -> IF c = "n" THEN go("c4") ELSE go("bad")
       [] p = "c4" -> IF c = "t" THEN go("word") ELSE go("bad")
       [] p = "word" -> IF c = "," THEN next ELSE IF c = "}" THEN close ELSE go("bad")
       [] p = "closed" -> IF Design = "unanchored" THEN st ELSE go("bad")
       [] OTHER -> st
Shape(kind, t) == FoldLeft(LAMBDA st, c : Step(kind, st, c), [at |-> "open", n |-> 0], t).at = "closed"
Strip(t) == SelectSeq(t, LAMBDA c : c \notin (IF Design = "spaces" THEN {" "} ELSE Blank) \cup {"{", "}"})
Read(kind, t) == LET s == SplitComma(Strip(t)) IN IF t = <<>> THEN <<>> ELSE s
Fits(kind, s) == kind # "where" \/ \A i \in DOMAIN s : i % 2 = 0 => InRange(s[i])
Client ==
  LET sum == Read("sum", q.sum)
      where == Read("where", q.where)
      group == Read("groupBy", q.groupBy)
      bad == \/ q.sum = <<>>
             \/ (q.where = <<>>) # (q.pred = "")
             \/ ~Shape("sum", q.sum)
             \/ (Design = "needs all" \/ q.where # <<>>) /\ ~Shape("where", q.where)
             \/ (Design = "needs all" \/ q.groupBy # <<>>) /\ ~Shape("groupBy", q.groupBy)
             \/ q.count /\ (CountItem \notin Range(sum) \/ Design = "no count")
             \/ Design # "no range" /\ ~Fits("where", where)
  IN IF bad /\ Design # "submits anyway" THEN Refused
     ELSE [done |-> TRUE, refused |-> FALSE, surveys |-> <<[sum |-> [i \in DOMAIN sum |-> Text(sum[i])],
            where |-> IF Design = "last value" THEN [i \in 1..(Len(where) \div 2) |-> [name |-> Text(where[2 * i - 1]), value |-> Number(where[Len(where)])]]
                      ELSE [i \in 1..(Len(where) \div 2) |-> [name |-> Text(where[2 * i - 1]), value |-> Number(where[2 * i])]],
            groupBy |-> [i \in DOMAIN group |-> Text(group[i])], pred |-> q.pred, count |-> q.count, proofs |-> q.proofs]>>]
\* ---- writing
EmptyQ == [sum |-> <<>>, where |-> <<>>, groupBy |-> <<>>, pred |-> "", count |-> FALSE, proofs |-> FALSE]
Good == [sum |-> <<"{", "s", "1", "}">>, where |-> <<"{", "w", "1", ",", "1", "}">>, groupBy |-> <<"{", "g", "1", "}">>]
Sep == {<<",">>, <<",", " ">>, <<",", "\t">>, <<",", " ", "\n">>}
Join(items, seps) == <<"{">> \o items[1] \o FoldLeft(LAMBDA a, b : a \o b, <<>>, [i \in 1..(Len(items) - 1) |-> seps[i] \o items[i + 1]]) \o <<"}">>
Numbers == {<<"0">>, <<"7">>, <<"2", "7">>, <<"0", "3">>}
Attr(l) == {<<l, "0">>, <<l, "1">>, <<l, "1", "2">>, <<l, "0", "2">>}
TypeInit == /\ q = IF Kind = "where" THEN [EmptyQ EXCEPT !.sum = Good.sum, !.pred = "p"]
                   ELSE IF Kind = "groupBy" THEN [EmptyQ EXCEPT !.sum = Good.sum] ELSE EmptyQ
            /\ edits = 0
            /\ out = None
\* a few well-formed queries, to be edited in all ways
EditInit ==
  /\ \E is \in {<< <<"s", "1">> >>, <<CountItem, <<"s", "0", "2">> >>}, nw \in 0..2, ig \in {<<>>, << <<"g", "1">>, <<"g", "0">> >>}, sp \in {<<",">>, <<",", "\t">>} :
       q = [sum |-> Join(is, [i \in 1..3 |-> sp]),
            where |-> IF nw = 0 THEN <<>> ELSE Join(SubSeq(<< <<"w", "1">>, <<"2", "7">>, <<"w", "0">>, <<"0", "3">> >>, 1, 2 * nw), [i \in 1..3 |-> sp]),
            groupBy |-> IF ig = <<>> THEN <<>> ELSE Join(ig, [i \in 1..3 |-> sp]),
            pred |-> IF nw = 0 THEN "" ELSE "v0 == v1", count |-> CountItem \in Range(is), proofs |-> FALSE]
  /\ edits = 0
  /\ out = None
\* simulation: a random well-formed query, then a random number of edits
Write ==
  /\ Mode = "random" /\ edits = -1
  /\ \E ns \in {RandomElement(1..3)}, nw \in {RandomElement(0..2)}, ng \in {RandomElement(0..3)}, proofs \in {RandomElement(BOOLEAN)} :
     \E seps \in {[i \in 1..5 |-> RandomElement(Sep)]}, is \in {[i \in 1..ns |-> RandomElement(Attr("s") \cup {CountItem})]},
        iw \in {[i \in 1..(2 * nw) |-> IF i % 2 = 1 THEN RandomElement(Attr("w")) ELSE RandomElement(Numbers)]}, ig \in {[i \in 1..ng |-> RandomElement(Attr("g"))]} :
       q' = [sum |-> Join(is, seps),
             where |-> IF nw = 0 THEN <<>> ELSE Join(iw, seps),
             groupBy |-> IF ng = 0 THEN <<>> ELSE Join(ig, seps),
             pred |-> IF nw = 0 THEN "" ELSE "v0 == v1", count |-> CountItem \in Range(is), proofs |-> proofs]
  /\ edits' = RandomElement(0..MaxEdits)
  /\ UNCHANGED out
Init == CASE Mode = "type" -> TypeInit [] Mode = "edit" -> EditInit [] Mode = "random" -> q = EmptyQ /\ edits = -1 /\ out = None
Type == /\ Mode = "type" /\ ~out.done /\ edits < MaxLen
        /\ \E s \in Symbols : q' = [q EXCEPT ![Kind] = @ \o Sym(s)]
        /\ edits' = edits + 1
        /\ UNCHANGED out
TakeOut(t, i) == SubSeq(t, 1, i - 1) \o SubSeq(t, i + 1, Len(t))
PutIn(t, i, s) == SubSeq(t, 1, i - 1) \o s \o SubSeq(t, i, Len(t))
Kinds == {"sum", "where", "groupBy"}
Edit == /\ Mode \in {"edit", "random"} /\ ~out.done /\ 0 <= edits /\ edits < MaxEdits
        /\ \/ \E k \in Kinds : \E i \in DOMAIN q[k] : q' = [q EXCEPT ![k] = TakeOut(@, i)]
           \/ \E k \in Kinds : \E i \in 1..(Len(q[k]) + 1), s \in Symbols : q' = [q EXCEPT ![k] = PutIn(@, i, Sym(s))]
           \/ \E k \in Kinds : \E i \in DOMAIN q[k], s \in Symbols : q' = [q EXCEPT ![k] = PutIn(TakeOut(@, i), i, Sym(s))]
           \/ q' = [q EXCEPT !.count = ~@]
           \/ q' = [q EXCEPT !.pred = IF @ = "" THEN "v0 == v1" ELSE ""]
           \/ \E k \in Kinds : q' = [q EXCEPT ![k] = <<>>]
           \/ \E k, m \in Kinds : q' = [q EXCEPT ![k] = q[m], ![m] = q[k]]
        /\ edits' = edits + 1
        /\ UNCHANGED out
Run == /\ ~out.done
       /\ Mode = "random" => edits = MaxEdits
       /\ out' = Client
       /\ UNCHANGED <<q, edits>>
Next == Write \/ Type \/ Edit \/ Run
Spec == Init /\ [][Next]_vars
\* ---- properties
Faithful == out.done =>
  CASE Class(q) = "exact" -> out.surveys = <<Survey(q)>>
    [] Class(q) = "bad" -> out.refused /\ out.surveys = <<>>
    [] OTHER -> out.refused \/ out.surveys = <<Survey(q)>>
EmitCase == ~out.done \/ ~Emitting \/ Emit("CASE", [q |-> q, class |-> Class(q)])
=============================================================================
