------------------------------ MODULE AggTrace ------------------------------
(* Validates recorded runs of the real aggregation protocol: each line holds *)
(* the servers' contents and what the root delivered.                        *)
EXTENDS AggOps
Lines == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Why(o) ==
  IF Dead(o) THEN DeadWhy(o)
  ELSE IF o.fault /\ o.unended # 0 THEN "a server's part does not end within the time-out"
  ELSE IF o.fault /\ o.tampered = "other" THEN ""
  ELSE IF o.fault /\ ~o.delivered THEN ""
  ELSE IF ~o.delivered THEN "no result delivered"
  ELSE IF o.results # 1 THEN "result delivered more than once"
  ELSE IF ~ResultOk(o.local, o.res) THEN "wrong aggregate"
  ELSE ""
TInit == l = 1
TNext == /\ l <= Len(Lines)
         /\ l' = l + 1
         /\ LET w == Why(Lines[l]) IN IF w = "" THEN TRUE ELSE Reject(Lines[l].id, w)
TSpec == TInit /\ [][TNext]_l
TAllRead == TLCGet("stats").diameter - 1 = Len(Lines)
=============================================================================
