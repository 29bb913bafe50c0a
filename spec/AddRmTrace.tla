----------------------------- MODULE AddRmTrace -----------------------------
(* Judges versions of a data set made by the real code: contents, number, order,     *)
(* untouched earlier versions, and the original encryption again when everything     *)
(* added was removed. fp names the bytes of a version.                               *)
EXTENDS Common
Lines == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Why(o) ==
  IF Dead(o) THEN DeadWhy(o)
  ELSE IF \E t \in DOMAIN o.errs : o.errs[t] # "" THEN "no result"
  ELSE IF \E v \in DOMAIN o.vers : o.vers[v].results # 1 THEN "the result is not delivered exactly once"
  ELSE IF \E v \in DOMAIN o.vers : o.vers[v].vals # o.vals THEN "wrong values under the new key"
  ELSE IF \E v \in DOMAIN o.vers : o.vers[v].fp # o.vers[v].fpthen THEN "an input was changed"
  ELSE IF \E v, w \in DOMAIN o.vers : o.vers[v].key = o.vers[w].key /\ o.vers[v].fp # o.vers[w].fp THEN "not the original encryption again"
  ELSE ""
TInit == l = 1
TNext == /\ l <= Len(Lines)
         /\ l' = l + 1
         /\ LET w == Why(Lines[l]) IN IF w = "" THEN TRUE ELSE Reject(Lines[l].id, w)
TSpec == TInit /\ [][TNext]_l
TAllRead == TLCGet("stats").diameter - 1 = Len(Lines)
=============================================================================
