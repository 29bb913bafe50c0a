------------------------------ MODULE RingTrace ------------------------------
(* Judges recorded runs of the real key-switching, shuffling, tagging and     *)
(* shuffle+tagging protocols.  Plaintexts are what the harness decrypted with  *)
(* its own ElGamal; -999999999 stands for "no integer".                        *)
EXTENDS Common
Lines == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, seenPerms

NotDelivered(o) == ~o.delivered

KSWhy(o) ==
  IF ~o.delivered THEN "no result delivered"
  ELSE IF o.results # 1 THEN "result delivered more than once"
  ELSE IF o.res # o.data THEN "switched values differ"
  ELSE IF ~o.fresh THEN "switched ciphertexts are not freshly randomised"
  ELSE IF o.leak THEN "result decrypts with another key"
  ELSE IF ~o.untouched THEN "input modified"
  ELSE ""

ShuffleWhy(o) ==
  IF ~o.delivered THEN "no result delivered"
  ELSE IF o.results # 1 THEN "result delivered more than once"
  ELSE IF ~SameBag(o.res, o.rows) THEN "output is not a permutation of the input rows"
  ELSE IF ~o.notin THEN "a ciphertext (half) was not re-randomised"
  ELSE IF ~o.fresh THEN "re-randomisation not fresh per row and column, or a server left out"
  ELSE IF o.stale # 0 THEN "a server passed ciphertexts on unchanged"
  ELSE IF ~o.untouched THEN "input modified"
  ELSE IF Len(o.rows) >= 14 /\ o.matched /\ o.ordered THEN "rows left in order"
  ELSE IF Len(o.rows) >= 14 /\ o.matched /\ o.perm \in seenPerms THEN "order predictable"
  ELSE ""

\* all (plaintext, tag, secrets) triples of all runs
DDTPairs(o) == UNION {{<<r.data[i], r.tags[i], r.other>> : i \in 1..Min2(Len(r.data), Len(r.tags))} : r \in Range(o.runs)}
DDTWhy(o) ==
  IF \E r \in Range(o.runs) : ~r.delivered THEN "no result delivered"
  ELSE IF \E r \in Range(o.runs) : r.results # 1 THEN "result delivered more than once"
  ELSE IF \E r \in Range(o.runs) : Len(r.tags) # Len(r.data) THEN "number of tags differs"
  ELSE IF \E a, b \in DDTPairs(o) : a[3] = b[3] /\ a[1] = b[1] /\ a[2] # b[2] THEN "equal plaintexts, different tags"
  ELSE IF \E a, b \in DDTPairs(o) : a[3] = b[3] /\ a[1] # b[1] /\ a[2] = b[2] THEN "different plaintexts, equal tags"
  ELSE IF \E a, b \in DDTPairs(o) : a[3] # b[3] /\ a[2] = b[2] THEN "a tag comes back under another secret"
  ELSE IF \E r, s \in Range(o.runs) : r.other = s.other /\ (r.key = s.key) # (r.data = s.data) THEN "grouping keys do not match the tags"
  ELSE IF \E r \in Range(o.runs) : ~r.untouched THEN "input modified"
  ELSE ""

SDDTWhy(o) ==
  IF ~o.inj THEN "different plaintexts, equal tags"
  ELSE IF \E r \in Range(o.runs) : ~r.delivered THEN "no result delivered"
  ELSE IF \E r \in Range(o.runs) : r.results # 1 THEN "result delivered more than once"
  ELSE IF \E r \in Range(o.runs) : ~SameBag(r.res, r.rows) THEN "tagged rows are not a permutation of the input rows"
  ELSE IF \E r \in Range(o.runs) : ~r.untouched THEN "input modified"
  ELSE IF o.linked THEN "a tag comes back under another secret"
  ELSE ""

\* count[i][j]: how often the row at i came from j.  A uniform permutation deviates from runs/rows by less than
\* 12 standard deviations and leaves no count at zero, but for chances below e^-40.
PermWhy(o) ==
  LET k == Len(o.count) IN
  IF ~o.valid THEN "not a permutation"
  ELSE IF k < 2 THEN ""
  ELSE IF o.runs >= 40 * k /\ \E i, j \in 1..k : o.count[i][j] = 0 THEN "a row never ends up at some place: order predictable"
  ELSE IF \E i, j \in 1..k : LET d == k * o.count[i][j] - o.runs IN d > 40000 \/ d < -40000 \/ (IF o.runs >= 40 * k THEN d * d > 144 * o.runs * (k - 1) ELSE o.count[i][j] > 40) THEN "order biased"
  ELSE ""

\* the same work at the beginning of several processes: nothing that is chosen at random may come back
TwinWhy(o) ==
  IF ~o.valid THEN "output is not a permutation of the input rows"
  ELSE IF Range(o.prints) \cap seenPerms # {} THEN "order or blinding of an earlier process comes back"
  ELSE IF Cardinality(Range(o.prints)) # Len(o.prints) THEN "order or blinding comes back"
  ELSE ""

Plain(o) == IF IOEnv.KIND = "ks" THEN KSWhy(o)
            ELSE IF IOEnv.KIND = "shuffle" THEN ShuffleWhy(o)
            ELSE IF IOEnv.KIND = "ddt" THEN DDTWhy(o)
            ELSE SDDTWhy(o)

\* With lost messages nothing need be delivered, but the computation ends; what is delivered is right.
Part(o) == IF Has(o, "runs") THEN [o EXCEPT !.runs = SelectSeq(@, LAMBDA r : r.delivered)] ELSE o
Nothing(o) == IF Has(o, "runs") THEN \A r \in Range(o.runs) : ~r.delivered ELSE ~o.delivered

Why(o) == IF Dead(o) THEN DeadWhy(o)
          ELSE IF IOEnv.KIND = "perm" THEN PermWhy(o)
          ELSE IF IOEnv.KIND = "twin" THEN TwinWhy(o)
          ELSE IF o.fault /\ o.unended # 0 THEN "a server's part does not end within the time-out"
          ELSE IF o.fault /\ o.tampered = "other" THEN ""
          ELSE IF o.fault /\ Nothing(o) THEN ""
          ELSE IF o.fault THEN Plain(Part(o))
          ELSE Plain(o)

TInit == l = 1 /\ seenPerms = {}
TNext == /\ l <= Len(Lines)
         /\ l' = l + 1
         /\ LET w == Why(Lines[l]) IN IF w = "" THEN TRUE ELSE Reject(Lines[l].id, w)
         /\ seenPerms' = IF IOEnv.KIND = "twin" /\ ~Dead(Lines[l]) THEN seenPerms \cup Range(Lines[l].prints)
                         ELSE IF IOEnv.KIND = "shuffle" /\ ~Dead(Lines[l]) /\ Has(Lines[l], "perm")
                         THEN seenPerms \cup {Lines[l].perm} ELSE seenPerms
TSpec == TInit /\ [][TNext]_<<l, seenPerms>>
TAllRead == TLCGet("stats").diameter - 1 = Len(Lines)
=============================================================================
