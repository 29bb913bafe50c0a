----------------------------- MODULE ArithTrace -----------------------------
(* Judges programs over encrypted registers (KIND=arith) and decryption        *)
(* histories (KIND=dlog) run with the real code.                               *)
EXTENDS Common
Lines == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
\* Effect of one operation on the (plaintext) registers.
Apply(regs, s) ==
  LET a == IF s.a > 0 THEN regs[s.a] ELSE <<>>
      b == IF s.b > 0 THEN regs[s.b] ELSE <<>>
      zero == [i \in DOMAIN regs[1] |-> 0]
  IN CASE s.op = "enc" -> [regs EXCEPT ![s.d] = s.vs]
       [] s.op \in {"null", "zero"} -> [regs EXCEPT ![s.d] = zero]
       [] s.op = "copy" -> [regs EXCEPT ![s.d] = a]
       [] s.op \in {"add", "addc"} -> [regs EXCEPT ![s.d] = [i \in DOMAIN a |-> a[i] + b[i]]]
       [] s.op \in {"sub", "subc"} -> [regs EXCEPT ![s.d] = [i \in DOMAIN a |-> a[i] - b[i]]]
       [] s.op = "mulc" -> [regs EXCEPT ![s.d] = [i \in DOMAIN a |-> a[i] * s.k]]
       [] OTHER -> regs
StepWhy(regs, s) ==
  LET a == IF s.a > 0 THEN regs[s.a] ELSE <<>>
      b == IF s.b > 0 THEN regs[s.b] ELSE <<>>
  IN IF s.regs # Apply(regs, s) THEN "wrong registers after " \o s.op
     ELSE IF s.op = "acum" /\ s.got # <<SumSeq(a)>> THEN "wrong sum of a vector"
     ELSE IF s.op = "dec" /\ s.k = 0 /\ s.got # a THEN "wrong decryption"
     ELSE IF s.op = "dec" /\ s.k = 1 /\ s.got # [i \in DOMAIN a |-> IF a[i] = 0 THEN 0 ELSE 1] THEN "wrong zero check"
     ELSE IF s.op = "eq" /\ s.flag # (s.ka = s.kb) THEN "equality is not that of the points"
     ELSE IF s.op \in {"enc", "split"} /\ ~s.flag THEN s.op \o ": randomness, length or operand wrong"
     ELSE ""
ArithWhy(o) ==
  FoldLeft(LAMBDA st, s : IF st.why # "" THEN st ELSE [regs |-> Apply(st.regs, s), why |-> StepWhy(st.regs, s)],
           [regs |-> [i \in 1..o.n |-> [j \in 1..o.l |-> 0]], why |-> ""], o.steps).why

DlogWhy(o) ==
  \* (what lies outside of the table's bounds has no result to compare with, but must not spoil later decryptions)
  IF \E d \in {d \in Range(o.decs) : d.v < 100000 /\ d.v > -100000} : d.got # (IF d.v >= 0 \/ d.neg THEN d.v ELSE 0) THEN "decryption depends on what was decrypted before"
  ELSE ""
Why(o) == IF Dead(o) THEN DeadWhy(o)
          ELSE IF IOEnv.KIND = "arith" THEN ArithWhy(o) ELSE DlogWhy(o)
TInit == l = 1
TNext == /\ l <= Len(Lines)
         /\ l' = l + 1
         /\ LET w == Why(Lines[l]) IN IF w = "" THEN TRUE ELSE Reject(Lines[l].id, w)
TSpec == TInit /\ [][TNext]_l
TAllRead == TLCGet("stats").diameter - 1 = Len(Lines)
=============================================================================
