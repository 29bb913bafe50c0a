--------------------------- MODULE PrecomputeTrace ---------------------------
(* Judges what creations of surveys were given by the real code, for histories  *)
(* of the precomputation file.                                                   *)
EXTENDS Common
Lines == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
GotWhy(g) ==
  IF g.err # "" THEN "the file prevents a survey from being created"
  ELSE IF g.lines = 0 \/ g.width < g.w THEN "not enough precomputed values"
  ELSE IF ~g.zero THEN "precomputed values do not encrypt zero under the survey's key"
  ELSE IF ~g.shuffled THEN "shuffling with the precomputed values alters rows"
  ELSE ""
Why(o) ==
  IF Dead(o) THEN DeadWhy(o)
  ELSE LET bad == {i \in DOMAIN o.got : GotWhy(o.got[i]) # ""}
       IN IF bad = {} THEN "" ELSE GotWhy(o.got[CHOOSE i \in bad : \A j \in bad : i <= j])
TInit == l = 1
TNext == /\ l <= Len(Lines)
         /\ l' = l + 1
         /\ LET w == Why(Lines[l]) IN IF w = "" THEN TRUE ELSE Reject(Lines[l].id, w)
TSpec == TInit /\ [][TNext]_l
TAllRead == TLCGet("stats").diameter - 1 = Len(Lines)
=============================================================================
