----------------------------- MODULE ProofTrace -----------------------------
(* Judges published proofs of the real code (KIND=lists): an element is in order   *)
(* when it states exactly one of the things the operation produced and carries     *)
(* the proof made for that; aggregations are checked on their own sums.            *)
(* KIND=run: proofs published by servers while they run a protocol.                *)
EXTENDS Common
Lines == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
InOrder(o, e) == IF o.typ = "agg" THEN e.t ELSE e.s \in Range(o.orig) /\ e.p = e.s
AllInOrder(o) == \A i \in DOMAIN o.pub : InOrder(o, o.pub[i])
ListWhy(o) ==
  IF o.touched THEN "proving or verifying changed the data"
  ELSE IF ~o.pre /\ o.made # "" THEN "a correct operation cannot be proven"
  ELSE IF o.made # "" THEN ""
  ELSE IF ~o.pre /\ o.first # o.orig THEN "the proofs do not state what was done"
  ELSE IF o.wired # "" THEN "published proofs cannot be read"
  ELSE IF \E i \in DOMAIN o.pub : InOrder(o, o.pub[i]) /\ ~o.ones[i] THEN "a right proof is rejected"
  ELSE IF \E i \in DOMAIN o.pub : ~InOrder(o, o.pub[i]) /\ o.ones[i] THEN "a false statement is accepted"
  ELSE IF AllInOrder(o) /\ ~(o.list /\ o.full) THEN "a list of right proofs is rejected"
  ELSE IF ~AllInOrder(o) /\ o.full THEN "a list with a false statement is accepted"
  ELSE ""
RunWhy(o) == IF o.badproofs > 0 THEN "a published proof does not verify"
             ELSE IF o.expect /\ o.proofs = 0 THEN "no proof was published" ELSE ""
Why(o) == IF Dead(o) THEN DeadWhy(o)
          ELSE IF IOEnv.KIND = "lists" THEN ListWhy(o) ELSE RunWhy(o)
TInit == l = 1
TNext == /\ l <= Len(Lines)
         /\ l' = l + 1
         /\ LET w == Why(Lines[l]) IN IF w = "" THEN TRUE ELSE Reject(Lines[l].id, w)
TSpec == TInit /\ [][TNext]_l
TAllRead == TLCGet("stats").diameter - 1 = Len(Lines)
=============================================================================
