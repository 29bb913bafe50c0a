------------------------------- MODULE Filter -------------------------------
(* Filtering the tagged responses of a server one after the other, for every    *)
(* small predicate, query and list of responses (of any number of attributes).   *)
EXTENDS FilterOps
CONSTANTS Vals, MaxRows, MaxArity,
          Design,     \* "each": every response with its own attributes; wrong designs:
                      \* "first" (number of attributes taken from the first response),
                      \* "keeperr" (an evaluation that fails keeps the response), "swap" (variables numbered the other way)
          Emitting
VARIABLES pred, query, rows, i, kept, st
vars == <<pred, query, rows, i, kept, st>>
Vecs(n) == UNION {[1..k -> Vals] : k \in 0..n}
Atoms == [op : {"eq", "ne"}, a : 0..(2 * MaxArity), b : {1}] \cup [op : {"true", "false", "bad", "val"}] \cup [op : {"var"}, a : {0, 1}]
Preds == Atoms \cup [op : {"not"}, l : Atoms] \cup [op : {"and", "or"}, l : Atoms, r : Atoms]

Init == /\ pred = [op |-> "true"] /\ query = <<>> /\ rows = <<>>
        /\ i = 1 /\ kept = <<>> /\ st = "pred"
PickPred == /\ st = "pred"
            /\ pred' \in Preds
            /\ st' = "query"
            /\ UNCHANGED <<query, rows, i, kept>>
PickQuery == /\ st = "query"
             /\ query' \in Vecs(MaxArity)
             /\ st' = "rows"
             /\ UNCHANGED <<pred, rows, i, kept>>
AddRow == /\ st = "rows" /\ Len(rows) < MaxRows
          /\ \E r \in Vecs(MaxArity) : rows' = Append(rows, r)
          /\ UNCHANGED <<pred, query, i, kept, st>>
Go == /\ st = "rows"
      /\ st' = "run"
      /\ UNCHANGED <<pred, query, rows, i, kept>>
Look(r) == IF Design = "first" THEN [j \in 1..Min2(Len(r), Len(rows[1])) |-> r[j]]
           ELSE r
Result == IF Design = "swap" THEN Eval(pred, Look(rows[i]), query, TRUE) ELSE Eval(pred, query, Look(rows[i]), TRUE)
Step == /\ st = "run" /\ i <= Len(rows)
        /\ kept' = IF Result = "T" \/ (Design = "keeperr" /\ Result = "E") THEN Append(kept, i) ELSE kept
        /\ i' = i + 1
        /\ UNCHANGED <<pred, query, rows, st>>
Done == /\ st = "run" /\ i > Len(rows)
        /\ st' = "done"
        /\ UNCHANGED <<pred, query, rows, i, kept>>
Next == PickPred \/ PickQuery \/ AddRow \/ Go \/ Step \/ Done
Spec == Init /\ [][Next]_vars
Exact == st = "done" => FilterOk(pred, query, rows, kept)
EmitCase == (Emitting /\ st = "done") => Emit("CASE", [ast |-> pred, where |-> query, rows |-> rows])
=============================================================================
