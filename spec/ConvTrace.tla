----------------------------- MODULE ConvTrace -----------------------------
(* Judges the real conversions between lists of responses and what the protocols work on.  *)
EXTENDS ConvOps
Lines == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Total(o) == IF o.kind = "matrix" THEN 0 ELSE SumSeq([i \in DOMAIN o.rows |-> Len(o.rows[i].g) + Len(o.rows[i].a)])
Why(o) ==
  IF Dead(o) THEN DeadWhy(o)
  ELSE IF o.after # o.rows THEN "the given list is changed"
  ELSE IF o.beyond # o.rest THEN "what follows the given list is changed"
  ELSE IF o.kind = "matrix" /\ ~Stands(o.rows, o.back) THEN "a response is lost, repeated or altered"
  ELSE IF o.kind = "flat" /\ o.back # o.rows THEN "a response is lost, repeated or altered"
  ELSE IF o.kind = "flat" /\ o.size # Total(o) THEN "wrong number of ciphertexts"
  ELSE ""
TInit == l = 1
TNext == /\ l <= Len(Lines)
         /\ l' = l + 1
         /\ LET w == Why(Lines[l]) IN IF w = "" THEN TRUE ELSE Reject(Lines[l].id, w)
TSpec == TInit /\ [][TNext]_l
TAllRead == TLCGet("stats").diameter - 1 = Len(Lines)
=============================================================================
