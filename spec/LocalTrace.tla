----------------------------- MODULE LocalTrace -----------------------------
(* Judges computations of the real code that ran side by side: everyone gets what     *)
(* its own input gives, once.                                                         *)
EXTENDS ClearOps, StoreOps
Lines == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
AllGood(list) == \A i \in DOMAIN list : list[i]
Result(x) ==
  CASE x.kind = "aggr" -> LocOk(x.rows, x.out)
    [] x.kind = "clear" -> SumsOk(x.rows, x.out)
    [] x.kind = "addrm" -> x.out = x.vals
    [] x.kind = "proofs" -> x.out = [i \in 1..6 |-> AllGood(x.good[i])]
InstWhy(x) ==
  IF x.err # "" THEN "it failed"
  ELSE IF x.asked /\ x.results = 0 THEN "no result"
  ELSE IF ~x.asked THEN IF x.results = 0 THEN "" ELSE "a result nobody asked for"
  ELSE IF x.results > 1 THEN "a second result"
  ELSE IF Result(x) THEN "" ELSE "not what its input gives"
Bad(o) == {i \in DOMAIN o.insts : InstWhy(o.insts[i]) # ""}
Why(o) == IF Dead(o) THEN DeadWhy(o)
          ELSE IF o.touched THEN "an input was changed"
          ELSE IF Bad(o) = {} THEN ""
          ELSE LET i == CHOOSE j \in Bad(o) : TRUE IN o.insts[i].kind \o ": " \o InstWhy(o.insts[i])
TInit == l = 1
TNext == /\ l <= Len(Lines)
         /\ l' = l + 1
         /\ LET w == Why(Lines[l]) IN IF w = "" THEN TRUE ELSE Reject(Lines[l].id, w)
TSpec == TInit /\ [][TNext]_l
TAllRead == TLCGet("stats").diameter - 1 = Len(Lines)
=============================================================================
