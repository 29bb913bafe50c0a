-------------------------------- MODULE DLog --------------------------------
(* The shared table of discrete logarithms.  Decrypting a value not in the    *)
(* table extends it until the value is found.  Whatever was decrypted before,  *)
(* the result must be the value (or "out of range" for what the decryption      *)
(* does not support).  Coupled=TRUE is the wrong design in which negative       *)
(* numbers are only entered together with new positive ones; Leaky=TRUE the one *)
(* in which a decryption for non-negative numbers returns what a negative-aware *)
(* one entered.                                                                 *)
EXTENDS Common
CONSTANTS MaxV,        \* values are in -(Max-1)..(Max-1)
          MaxOps, Coupled, Leaky, Emitting
VARIABLES table,      \* integers whose points are in the table
          top, bottom,\* positives entered up to top, negatives down to -bottom (exclusive bounds)
          hist, last
vars == <<table, top, bottom, hist, last>>
View == <<table, top, bottom, last, Len(hist)>>
OutOfRange == 0
Vals == (1 - MaxV)..(MaxV - 1)

Init == table = {} /\ top = 0 /\ bottom = 0 /\ hist = <<>> /\ last = [v |-> 0, neg |-> TRUE, got |-> 0]

Want(v, neg) == IF v >= 0 \/ neg THEN v ELSE OutOfRange

\* extend the table while looking for v
SearchGood(v, neg) ==
  IF v >= 0 THEN [top |-> Max2(top, v + 1), bottom |-> IF neg THEN Max2(bottom, v) ELSE bottom, got |-> v]
  ELSE IF neg THEN [top |-> Max2(top, -v + 1), bottom |-> Max2(bottom, -v + 1), got |-> v]
  ELSE [top |-> MaxV, bottom |-> bottom, got |-> OutOfRange]
\* negatives only from the current top on
SearchCoupled(v, neg) ==
  LET from == IF top = 0 THEN 0 ELSE top - 1
  IN IF v >= from THEN [top |-> v + 1, bottom |-> bottom, got |-> v]
     ELSE IF neg /\ -v >= from THEN [top |-> -v + 1, bottom |-> bottom, got |-> v]
     ELSE [top |-> MaxV, bottom |-> bottom, got |-> OutOfRange]
Entered(s, neg) ==
  IF Coupled THEN LET from == IF top = 0 THEN 0 ELSE top - 1
                  IN (from..(s.top - 1)) \cup (IF neg THEN {-i : i \in from..(s.top - 1)} ELSE {})
  ELSE (0..(s.top - 1)) \cup {-i : i \in 0..(s.bottom - 1)}

Decrypt(v, neg) ==
  LET hit == v \in table /\ (Leaky \/ v >= 0 \/ neg)
      s == IF Coupled THEN SearchCoupled(v, neg) ELSE SearchGood(v, neg)
  IN /\ Len(hist) < MaxOps
     /\ hist' = Append(hist, [v |-> v, neg |-> neg])
     /\ IF hit THEN /\ last' = [v |-> v, neg |-> neg, got |-> v]
                    /\ UNCHANGED <<table, top, bottom>>
        ELSE /\ last' = [v |-> v, neg |-> neg, got |-> s.got]
             /\ top' = s.top /\ bottom' = s.bottom
             /\ table' = table \cup Entered(s, neg)
Next == \E v \in Vals, neg \in BOOLEAN : Decrypt(v, neg)
Spec == Init /\ [][Next]_vars
HistoryIndependent == last.got = Want(last.v, last.neg)
EmitCase == (Emitting /\ Len(hist) = MaxOps) => Emit("CASE", [ops |-> hist])
=============================================================================
