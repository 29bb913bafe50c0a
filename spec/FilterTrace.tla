----------------------------- MODULE FilterTrace -----------------------------
(* Judges the responses kept by the real filter.                               *)
EXTENDS FilterOps
Lines == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Why(o) ==
  IF Dead(o) THEN DeadWhy(o)
  ELSE IF ~o.intact THEN "a kept response is not the one that was given"
  ELSE IF ~o.mapped THEN "tags given to the wrong response"
  ELSE IF ~o.all THEN "without a filter responses are lost"
  ELSE IF o.ast.op = "any" THEN (IF Ascending(o.kept) THEN "" ELSE "responses reordered")
  ELSE IF ~FilterOk(o.ast, o.where, o.rows, o.kept) THEN "wrong responses kept"
  ELSE ""
TInit == l = 1
TNext == /\ l <= Len(Lines)
         /\ l' = l + 1
         /\ LET w == Why(Lines[l]) IN IF w = "" THEN TRUE ELSE Reject(Lines[l].id, w)
TSpec == TInit /\ [][TNext]_l
TAllRead == TLCGet("stats").diameter - 1 = Len(Lines)
=============================================================================
