----------------------------- MODULE QueryTrace -----------------------------
(* Judges what the unlynx command line did with queries: the survey the server received, the  *)
(* exit status.                                                                               *)
EXTENDS QueryOps
Lines == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Why(o) ==
  IF Dead(o) THEN DeadWhy(o)
  ELSE LET c == Class(o.q) IN
  IF o.exit # 0 /\ o.surveys # <<>> THEN "refused, but a survey was submitted"
  ELSE IF o.exit = 0 /\ o.surveys = <<>> THEN "nothing is submitted, but no error either"
  ELSE IF o.exit = 0 /\ c = "bad" THEN "a malformed query is taken"
  ELSE IF o.exit # 0 THEN IF c = "exact" THEN "a well-formed query is refused" ELSE ""
  ELSE IF Len(o.surveys) # 1 THEN "more than one survey"
  ELSE LET s == o.surveys[1]
           want == Survey(o.q)
       IN IF s.sum # want.sum THEN "wrong sum attributes"
          ELSE IF s.where # want.where THEN "wrong where attributes"
          ELSE IF s.groupBy # want.groupBy THEN "wrong group by attributes"
          ELSE IF s.pred # want.pred THEN "wrong predicate"
          ELSE IF s.count # want.count THEN "wrong count"
          ELSE IF s.proofs # want.proofs THEN "wrong proofs option"
          ELSE ""
TInit == l = 1
TNext == /\ l <= Len(Lines)
         /\ l' = l + 1
         /\ LET w == Why(Lines[l]) IN IF w = "" THEN TRUE ELSE Reject(Lines[l].id, w)
TSpec == TInit /\ [][TNext]_l
TAllRead == TLCGet("stats").diameter - 1 = Len(Lines)
=============================================================================
