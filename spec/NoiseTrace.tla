----------------------------- MODULE NoiseTrace -----------------------------
(* Judges recorded noise lists.  Each line carries the runs of equal distance  *)
(* and, from the density, lower and upper bounds of the repetitions (rounding  *)
(* of floating point numbers).                                                 *)
EXTENDS NoiseOps
Lines == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Total(o) == FoldLeft(LAMBDA s, r : s + r.cnt, 0, o.runs)
Why(o) ==
  IF Dead(o) THEN DeadWhy(o)
  ELSE IF o.len # o.n \/ Total(o) # o.n THEN "wrong number of values"
  ELSE IF ~o.integral THEN "values are not multiples of the unit"
  ELSE IF \E i \in DOMAIN o.runs : o.runs[i].k # i - 1 THEN "values not ordered outwards without gap"
  ELSE IF \E i \in DOMAIN o.runs : ~o.runs[i].alt THEN "not symmetric"
  ELSE IF \E i \in DOMAIN o.runs : o.runs[i].cnt > Occ(o.hi, i - 1) THEN "a value occurs too often"
  ELSE IF \E i \in 1..(Len(o.runs) - 1) : o.runs[i].cnt < Occ(o.lo, i - 1) THEN "a value occurs too rarely"
  ELSE IF o.maxk >= 0 /\ Len(o.runs) > o.maxk + 1 THEN "value beyond the limit"
  ELSE ""
TInit == l = 1
TNext == /\ l <= Len(Lines)
         /\ l' = l + 1
         /\ LET w == Why(Lines[l]) IN IF w = "" THEN TRUE ELSE Reject(Lines[l].id, w)
TSpec == TInit /\ [][TNext]_l
TAllRead == TLCGet("stats").diameter - 1 = Len(Lines)
=============================================================================
