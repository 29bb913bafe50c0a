----------------------------- MODULE ClearTrace -----------------------------
(* Judges what the real code does with data in clear. KIND=gen: generated data.       *)
(* KIND=file: written and read back. KIND=expect: expected results. KIND=compare:     *)
(* comparisons of results.                                                            *)
EXTENDS ClearOps
Lines == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
\* ---- generated data
Product(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)
Sound(p) == /\ Len(p.types) = p.gc + p.ge
            /\ p.random \/ Product(p.types) = p.entries
All(r, lo, hi) == \A x \in Range(r) : lo <= x /\ x <= hi
Same(r, v) == \A x \in Range(r) : x = v
RowOk(p, r, j) ==
  /\ Len(r.g) = p.gc /\ Len(r.ge) = p.ge /\ Len(r.w) = p.wc /\ Len(r.we) = p.we /\ Len(r.a) = p.ac /\ Len(r.ae) = p.ae
  /\ LET g == r.g \o r.ge IN \A i \in DOMAIN g : 0 <= g[i] /\ g[i] < p.types[i]
  /\ Same(r.w \o r.we, IF j <= p.filtered THEN 1 ELSE 0)
  /\ All(r.a \o r.ae, 0, 1)
Distinct(s) == Cardinality(Range(s)) = Len(s)
GenWhy(o) ==
  LET p == o.p IN
  IF ~Sound(p) THEN IF o.err # "" THEN "" ELSE "an impossible request is not refused"
  ELSE IF o.err # "" THEN "a possible request is refused"
  ELSE IF Len(o.dps) # p.dps \/ {o.dps[i].id : i \in DOMAIN o.dps} # {ToString(i - 1) : i \in 1..p.dps} THEN "wrong providers"
  ELSE IF \E i \in DOMAIN o.dps : Len(o.dps[i].rows) # p.entries THEN "wrong number of responses"
  ELSE IF \E i \in DOMAIN o.dps : \E j \in DOMAIN o.dps[i].rows : ~RowOk(p, o.dps[i].rows[j], j) THEN "not what was requested"
  ELSE IF ~p.random /\ \E i \in DOMAIN o.dps : ~Distinct([j \in DOMAIN o.dps[i].rows |-> o.dps[i].rows[j].g \o o.dps[i].rows[j].ge]) THEN "a group is missing"
  ELSE IF ~o.same THEN "reading gives something else than was written"
  ELSE IF \/ Len(o.all) # Product(p.types) \/ ~Distinct(o.all)
          \/ \E i \in DOMAIN o.all : Len(o.all[i]) # Len(p.types) \/ \E k \in DOMAIN p.types : o.all[i][k] < 0 \/ o.all[i][k] >= p.types[k]
       THEN "not all possible groups"
  ELSE IF Len(o.slice) # p.size \/ ~All(o.slice, p.min, p.max - 1) THEN "values out of bounds"
  ELSE ""
FileWhy(o) == IF o.err # "" THEN "cannot be written and read" ELSE IF o.out = o.in THEN "" ELSE "reading gives something else than was written"
\* ---- expected results
Times(r) == IF r > 1 THEN r ELSE 1
Scale(v, f) == [i \in DOMAIN v |-> v[i] * f]
Scaled(rows, f) == [i \in DOMAIN rows |-> [rows[i] EXCEPT !.a = Scale(@, f), !.ae = Scale(@, f)]]
\* without filter attributes and with everything in clear
Joined(rows) == [i \in DOMAIN rows |-> [g |-> rows[i].g \o rows[i].ge, ge |-> <<>>, w |-> <<>>, we |-> <<>>, a |-> rows[i].a \o rows[i].ae, ae |-> <<>>]]
CallOk(rows, c) ==
  IF c.clear THEN SumsOk(Joined(SelectSeq(Scaled(rows, Times(c.rep)), Matches)), c.res)
  ELSE SumsOk(Scaled(rows, Times(c.rep)), c.res)
ExpectWhy(o) ==
  LET rows == FoldLeft(LAMBDA s, d : s \o d, <<>>, o.dps) IN
  IF o.touched THEN "the data were changed"
  ELSE IF \A c \in Range(o.calls) : CallOk(rows, c) THEN "" ELSE "wrong expected result"
\* ---- comparisons
CompareWhy(o) == IF \A i \in DOMAIN o.pairs : o.verdicts[i] = SameBag(o.pairs[i].x, o.pairs[i].y) THEN ""
                 ELSE LET i == CHOOSE j \in DOMAIN o.pairs : o.verdicts[j] # SameBag(o.pairs[j].x, o.pairs[j].y)
                      IN IF o.verdicts[i] THEN "different results are called equal" ELSE "equal results are called different"
Why(o) == IF Dead(o) THEN DeadWhy(o)
          ELSE CASE IOEnv.KIND = "gen" -> GenWhy(o)
                 [] IOEnv.KIND = "file" -> FileWhy(o)
                 [] IOEnv.KIND = "expect" -> ExpectWhy(o)
                 [] IOEnv.KIND = "compare" -> CompareWhy(o)
TInit == l = 1
TNext == /\ l <= Len(Lines)
         /\ l' = l + 1
         /\ LET w == Why(Lines[l]) IN IF w = "" THEN TRUE ELSE Reject(Lines[l].id, w)
TSpec == TInit /\ [][TNext]_l
TAllRead == TLCGet("stats").diameter - 1 = Len(Lines)
=============================================================================
