----------------------------- MODULE StoreTrace -----------------------------
EXTENDS StoreOps
Lines == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
BagOf(e) == [i \in DOMAIN e.out |-> <<e.out[i].t, e.out[i].g, e.out[i].w, e.out[i].a>>]
BagLater(e) == [i \in DOMAIN e.later |-> <<e.later[i].t, e.later[i].g, e.later[i].w, e.later[i].a>>]
PutIn(e) == [i \in DOMAIN e.in |-> <<IF e.op \in {"pushdet", "pushgr"} THEN e.in[i].t ELSE 0, e.in[i].g, e.in[i].w, e.in[i].a>>]
Fold(evs) == FoldLeft(LAMBDA s, e : IF s.why # "" THEN s
                                    ELSE IF IsPull(e) /\ ~PullOk(s.st, e) THEN [s EXCEPT !.why = e.op \o " returned wrong contents"]
                                    ELSE [s EXCEPT !.st = After(s.st, e)],
                      [st |-> Empty, why |-> ""], evs)
Why(o) == IF Dead(o) THEN DeadWhy(o)
          ELSE IF \E e \in Range(o.evs) : IsPull(e) /\ ~SameBag(BagOf(e), BagLater(e)) THEN "a pulled batch changed afterwards"
          ELSE IF \E e \in Range(o.evs) : ~IsPull(e) /\ e.op # "pushres" /\ PutIn(e) # BagLater(e) THEN "what was put in was changed"
          ELSE IF o.seq THEN Fold(o.evs).why
          ELSE IF ~TotalOk(o.evs) THEN "lost or duplicated under concurrent use"
          ELSE ""
TInit == l = 1
TNext == /\ l <= Len(Lines)
         /\ l' = l + 1
         /\ LET w == Why(Lines[l]) IN IF w = "" THEN TRUE ELSE Reject(Lines[l].id, w)
TSpec == TInit /\ [][TNext]_l
TAllRead == TLCGet("stats").diameter - 1 = Len(Lines)
=============================================================================
