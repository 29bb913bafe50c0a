----------------------------- MODULE SurveyTrace -----------------------------
(* Judges recorded runs of the real service: per survey the query, the data and *)
(* what the querier decrypted.                                                   *)
EXTENDS SurveyOps
Lines == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, pool    \* pool: tags of earlier lines
One(q, o) ==
  IF ~o.created THEN "survey not created"
  ELSE IF o.ackearly \/ o.unknownserver THEN "creation acknowledged before every server knew the survey"
  ELSE IF o.uperr # "" THEN "upload refused"
  ELSE IF o.err # "" THEN "results request failed"
  ELSE IF ~o.answered THEN "no answer"
  ELSE IF ~AnswerOk(q, o.rows) THEN "wrong answer"
  ELSE ""
Why(o) ==
  IF Dead(o) THEN DeadWhy(o)
  ELSE LET ws == [i \in DOMAIN o.out |-> One(o.surveys[i], o.out[i])]
           bad == {i \in DOMAIN ws : ws[i] # ""}
       IN IF bad # {} THEN ws[CHOOSE i \in bad : \A j \in bad : i <= j]
          ELSE IF o.unknownbad # 0 THEN "request for an unknown survey accepted"
          ELSE IF o.badtaken # 0 THEN "malformed upload accepted"
          ELSE ""
\* With faults: an answer, if there is one, is complete.  (A message damaged into another one of the right form
\* may change the answer of its survey, but of no other.)
FaultWhy(o) ==
  IF Dead(o) THEN DeadWhy(o)
  ELSE IF \E i \in DOMAIN o.out : o.out[i].answered /\ ~(o.tampered = "other" /\ ~o.surveys[i].sound) /\ ~AnswerOk(o.surveys[i], o.out[i].rows) THEN "partial or wrong answer after a fault"
  ELSE IF o.late THEN "a request does not end"
  ELSE IF \E i \in DOMAIN o.out : o.surveys[i].sound /\ One(o.surveys[i], o.out[i]) # "" THEN "a survey not concerned by the fault fails"
  ELSE ""
\* results released with noise
NoisyOne(q, o, max) ==
  IF ~o.created \/ o.uperr # "" \/ o.err # "" THEN "results request failed"
  ELSE IF ~o.answered THEN "no answer"
  ELSE IF ~NoisyOk(q, o.rows, max) THEN "not one value of the noise list added once to every aggregate"
  ELSE ""
NoisyWhy(o) ==
  IF Dead(o) THEN DeadWhy(o)
  ELSE LET ws == [i \in DOMAIN o.out |-> NoisyOne(o.surveys[i], o.out[i], o.maxv)]
           bad == {i \in DOMAIN ws : ws[i] # ""}
       IN IF bad # {} THEN ws[CHOOSE i \in bad : \A j \in bad : i <= j]
          ELSE LET some == {i \in DOMAIN o.out : Noises(o.surveys[i], o.out[i].rows) # {}}
               IN IF Cardinality(some) >= 5 /\ Cardinality(UNION {Noises(o.surveys[i], o.out[i].rows) : i \in some}) = 1
                  THEN "always the same noise" ELSE ""
\* the tags that servers see: as many as there are groups elsewhere than at the root, and never those of another survey
Away(q) == UNION {{q.dps[d].resp[k].g : k \in {k \in DOMAIN q.dps[d].resp : Kept(q, q.dps[d].resp[k])}} : d \in {d \in DOMAIN q.dps : q.dps[d].at # q.asker}}
TagsWhy(o) ==
  IF Why(o) # "" THEN Why(o)
  ELSE IF o.odd # "" THEN "unreadable aggregation message"
  ELSE IF \E i \in DOMAIN o.tags : Len(o.tags[i]) # Cardinality(Away(o.surveys[i])) THEN "tags are not equal exactly when the groups are"
  ELSE IF \E i, j \in DOMAIN o.tags : i < j /\ Range(o.tags[i]) \cap Range(o.tags[j]) # {} THEN "a tag of another survey comes back"
  ELSE IF \E i \in DOMAIN o.tags : Range(o.tags[i]) \cap pool # {} THEN "a tag of another survey comes back"
  ELSE ""
Judge(o) == IF IOEnv.KIND = "tags" THEN TagsWhy(o) ELSE IF IOEnv.KIND = "fault" THEN FaultWhy(o) ELSE IF IOEnv.KIND = "noisy" THEN NoisyWhy(o) ELSE Why(o)
TInit == l = 1 /\ pool = {}
TNext == /\ l <= Len(Lines)
         /\ l' = l + 1
         /\ LET w == Judge(Lines[l]) IN IF w = "" THEN TRUE ELSE Reject(Lines[l].id, w)
         /\ pool' = IF IOEnv.KIND = "tags" /\ ~Dead(Lines[l]) THEN pool \cup UNION {Range(Lines[l].tags[i]) : i \in DOMAIN Lines[l].tags} ELSE pool
TSpec == TInit /\ [][TNext]_<<l, pool>>
TAllRead == TLCGet("stats").diameter - 1 = Len(Lines)
=============================================================================
