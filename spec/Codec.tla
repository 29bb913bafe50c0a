------------------------------- MODULE Codec --------------------------------
(* A writer, a channel that damages what was written, and a reader, for the     *)
(* three layouts in use: one row with an announced length per part ("fixed"),   *)
(* equal rows without an announced number ("rows"), and rows with a list of     *)
(* lengths ("lens"). A number takes two cells of the first part and one of the  *)
(* second; a cell is <<number, half>> or Bad.                                    *)
EXTENDS CodecOps
CONSTANTS Layouts, MaxRows, MaxLen, MaxDamage,
          Design,     \* "checked"; wrong designs: "trusting" (slices without looking at the size),
                      \* "floor" (ignores what is left over and rows of other shapes), "buffer" (reads on beyond the end),
                      \* "any" (a cell that is no element is read all the same, leaving the part short)
          Emitting
VARIABLES st, layout, value, cells, head, log, res
vars == <<st, layout, value, cells, head, log, res>>

Bad == <<0, 0>>
Junk == <<9, 1>>
Unit == <<2, 1>>
Seqs(n) == UNION {[1..k -> {1, 2}] : k \in 0..n}
Widen(p, u) == FoldLeft(LAMBDA s, x : s \o [h \in 1..u |-> <<x, h>>], <<>>, p)
EncRow(r) == FoldLeft(LAMBDA s, j : s \o Widen(r[j], Unit[j]), <<>>, [j \in DOMAIN r |-> j])
EncAll(v) == FoldLeft(LAMBDA s, r : s \o EncRow(r), <<>>, v)
Ragged(v) == \E i, j \in DOMAIN v : RowShape(v[i]) # RowShape(v[j])
Hollow(v) == \E i \in DOMAIN v : EncRow(v[i]) = <<>>
HeadOf(v) == IF layout = "lens" THEN [i \in DOMAIN v |-> Len(v[i][1])]
             ELSE IF v = <<>> THEN <<0, 0>> ELSE RowShape(v[Len(v)])

Init == st = "value" /\ layout \in Layouts /\ value = <<>> /\ cells = <<>> /\ head = <<>> /\ log = <<>> /\ res = [k |-> "none"]
AddRow == /\ st = "value" /\ Len(value) < (IF layout = "fixed" THEN 1 ELSE MaxRows)
          /\ \E a \in Seqs(MaxLen), b \in Seqs(IF layout = "lens" THEN 0 ELSE 1) :
               value' = Append(value, IF layout = "lens" THEN <<a>> ELSE <<a, b>>)
          /\ UNCHANGED <<st, layout, cells, head, log, res>>
Write == /\ st = "value" /\ (layout = "fixed" => Len(value) = 1)
         /\ IF layout = "rows" /\ Design # "floor" /\ (Ragged(value) \/ Hollow(value))
            THEN st' = "done" /\ res' = [k |-> "refused"] /\ UNCHANGED <<cells, head>>
            ELSE st' = "wire" /\ cells' = EncAll(value) /\ head' = HeadOf(value) /\ UNCHANGED res
         /\ UNCHANGED <<layout, value, log>>
Damage(d, c, h) == /\ st = "wire" /\ Len(log) < MaxDamage
                   /\ log' = Append(log, d) /\ cells' = c /\ head' = h
                   /\ UNCHANGED <<st, layout, value, res>>
Cut == cells # <<>> /\ \E n \in 0..(Len(cells) - 1) : Damage(<<"cut", n>>, SubSeq(cells, 1, n), head)
Extend == Damage(<<"extend", 1>>, Append(cells, Junk), head)
Corrupt == \E i \in DOMAIN cells : Damage(<<"bad", i>>, [cells EXCEPT ![i] = Bad], head)
Lie == \E i \in DOMAIN head, d \in {-1, 1} : Damage(<<"len", i, d>>, cells, [head EXCEPT ![i] = @ + d])
Forget == layout = "lens" /\ head # <<>> /\ Damage(<<"lens", 1>>, cells, SubSeq(head, 1, Len(head) - 1))

\* the buffer a reader that does not stop at the end finds behind the cells
Behind == SubSeq(EncAll(value), Min2(Len(cells), Len(EncAll(value))) + 1, Len(EncAll(value)))
ReadPart(c, at, n, u) ==   \* n numbers of u cells from position at; [ok, part]
  LET one(i) == SubSeq(c, at + (i - 1) * u, at + i * u - 1)
      good(i) == \A k \in DOMAIN one(i) : one(i)[k] # Bad
  IN [ok |-> \A i \in 1..n : good(i), part |-> [i \in 1..n |-> one(i)[1][1]]]
Need(h) == FoldLeft(LAMBDA s, j : s + h[j] * (IF layout = "lens" THEN 2 ELSE Unit[j]), 0, [j \in DOMAIN h |-> j])
Neg(h) == \E j \in DOMAIN h : h[j] < 0
ReadRow(c, at, h) ==
  LET a == ReadPart(c, at, h[1], 2)
      b == ReadPart(c, at + 2 * h[1], h[2], 1)
  IN [ok |-> a.ok /\ b.ok, row |-> <<a.part, b.part>>]
Crash == [k |-> "crash"]
Error == [k |-> "error"]
Got(v) == [k |-> "value", v |-> v]
Decode ==
  LET c == IF Design = "buffer" THEN cells \o Behind ELSE cells
      checked == Design \in {"checked", "any"}
      fixedfit == IF Design = "buffer" THEN Len(c) >= Need(head) ELSE Len(c) = Need(head)
      n == IF Neg(head) \/ Need(head) <= 0 THEN 0 ELSE Len(c) \div Need(head)
  IN CASE layout = "fixed" ->
            IF Neg(head) THEN (IF Design = "trusting" THEN Crash ELSE Error)
            ELSE IF Design \in {"trusting", "floor"} /\ Len(c) < Need(head) THEN (IF Design = "trusting" THEN Crash ELSE Error)
            ELSE IF checked \/ Design = "buffer" THEN
              IF ~fixedfit THEN Error
              ELSE LET r == ReadRow(c, 1, head)
                   IN IF r.ok THEN Got(<<r.row>>)
                      ELSE IF Design = "any" THEN Got(<< <<SelectSeq(r.row[1], LAMBDA x : x # 0), r.row[2]>> >>) ELSE Error
            ELSE LET r == ReadRow(c, 1, head) IN IF r.ok THEN Got(<<r.row>>) ELSE Error
       [] layout = "rows" ->
            IF Neg(head) THEN (IF Design = "trusting" THEN Crash ELSE Error)
            ELSE IF Need(head) = 0 THEN (IF c = <<>> THEN Got(<<>>) ELSE IF Design = "trusting" THEN Crash ELSE Error)
            ELSE IF Design # "floor" /\ Len(c) % Need(head) # 0 THEN (IF Design = "trusting" THEN Crash ELSE Error)
            ELSE LET rs == [i \in 1..n |-> ReadRow(c, (i - 1) * Need(head) + 1, head)]
                 IN IF \A i \in 1..n : rs[i].ok THEN Got([i \in 1..n |-> rs[i].row]) ELSE Error
       [] layout = "lens" ->
            IF Neg(head) THEN (IF Design = "trusting" THEN Crash ELSE Error)
            ELSE IF Len(c) < Need(head) THEN (IF Design = "trusting" THEN Crash ELSE Error)
            ELSE IF checked /\ Len(c) # Need(head) THEN Error
            ELSE LET at(i) == 2 * SumSeq(SubSeq(head, 1, i - 1)) + 1
                     rs == [i \in DOMAIN head |-> ReadPart(c, at(i), head[i], 2)]
                 IN IF \A i \in DOMAIN head : rs[i].ok THEN Got([i \in DOMAIN head |-> <<rs[i].part>>]) ELSE Error
Read == /\ st = "wire"
        /\ st' = "done"
        /\ res' = Decode
        /\ UNCHANGED <<layout, value, cells, head, log>>
Next == AddRow \/ Write \/ Cut \/ Extend \/ Corrupt \/ Lie \/ Forget \/ Read
Spec == Init /\ [][Next]_vars

NoCrash == res.k # "crash"
Intact == st = "done" /\ res.k # "refused" /\ log = <<>>
RoundTrip == Intact => res.k = "value" /\ res.v = value
Kind == CASE layout = "fixed" -> "row" [] layout = "rows" -> "row" [] OTHER -> "rows"
Ann == IF layout = "lens" THEN [i \in DOMAIN head |-> <<head[i]>>] ELSE <<head>>
Shape == (st = "done" /\ res.k = "value") => Announced(Kind, Ann, res.v)
NoReadingOn == (st = "done" /\ res.k = "value" /\ Len(cells) < Len(EncAll(value)) /\ log # <<>> /\ \A i \in DOMAIN log : log[i][1] = "cut") => res.v # value
EmitCase == (Emitting /\ st = "done") => Emit("CASE", [layout |-> layout, value |-> value, log |-> log])
=============================================================================
