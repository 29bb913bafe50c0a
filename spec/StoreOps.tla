------------------------------ MODULE StoreOps ------------------------------
(* The per-survey store: what each stage holds and what a pull must hand over. *)
(* A row is [t |-> tag, g |-> grouping values, w |-> filter values,            *)
(*           a |-> aggregating values].                                        *)
EXTENDS Common

Empty == [enc |-> <<>>, clear |-> <<>>, sh |-> <<>>, loc |-> <<>>, gr |-> <<>>, res |-> <<>>]

InsertDp(st, rows, isEnc) == IF isEnc THEN [st EXCEPT !.enc = @ \o rows] ELSE [st EXCEPT !.clear = @ \o rows]

\* per-tag sums of a sequence of rows; the grouping values are the first row's
Tags(rows) == {r.t : r \in Range(rows)}
TagSum(rows, t) == FoldLeft(LAMBDA s, r : IF r.t = t THEN PadAdd(s, r.a) ELSE s, <<>>, rows)
TagG(rows, t) == rows[CHOOSE i \in DOMAIN rows : rows[i].t = t /\ \A j \in 1..(i - 1) : rows[j].t # t].g

KeyOf(r) == <<r.g, r.w>>
Keys(rows) == {KeyOf(r) : r \in Range(rows)}
KeySum(rows, k) == FoldLeft(LAMBDA s, r : IF KeyOf(r) = k THEN PadAdd(s, r.a) ELSE s, <<>>, rows)
NumKey(rows, k) == Cardinality({i \in DOMAIN rows : KeyOf(rows[i]) = k})

\* Encrypted responses come out one by one; responses all in clear may be summed per key.
DpOk(st, out) ==
  LET all == st.enc \o st.clear
  IN /\ Keys(out) = Keys(all)
     /\ \A r \in Range(st.enc) : Cardinality({i \in DOMAIN out : out[i].g = r.g /\ out[i].w = r.w /\ out[i].a = r.a})
                                   >= Cardinality({i \in DOMAIN st.enc : st.enc[i].g = r.g /\ st.enc[i].w = r.w /\ st.enc[i].a = r.a})
     /\ \A k \in Keys(all) : /\ KeySum(out, k) = KeySum(all, k)
                             /\ NumKey(out, k) <= NumKey(all, k)
                             /\ NumKey(out, k) >= NumKey(st.enc, k) + (IF NumKey(st.clear, k) > 0 THEN 1 ELSE 0)

Strip(rows) == [i \in DOMAIN rows |-> <<rows[i].g, rows[i].w, rows[i].a>>]
StripGA(rows) == [i \in DOMAIN rows |-> <<rows[i].g, rows[i].a>>]
Noisy(rows, d) == [i \in DOMAIN rows |-> [rows[i] EXCEPT !.a = [j \in DOMAIN @ |-> @[j] + d]]]

LocOk(in, out) == /\ Len(out) = Cardinality(Tags(in))
                  /\ Tags(out) = Tags(in)
                  /\ \A r \in Range(out) : r.g = TagG(in, r.t) /\ r.a = TagSum(in, r.t)

Merged(in) == LET ts == SetToSeq(Tags(in))
              IN [i \in DOMAIN ts |-> [t |-> ts[i], g |-> TagG(in, ts[i]), w |-> <<>>, a |-> TagSum(in, ts[i])]]

\* The state after an operation.
After(st, e) ==
  CASE e.op = "ins"     -> InsertDp(st, e.in, e.enc)
    [] e.op = "pushsh"  -> [st EXCEPT !.sh = @ \o e.in]
    [] e.op = "pushdet" -> [st EXCEPT !.loc = @ \o e.in]
    [] e.op = "pushgr"  -> [st EXCEPT !.gr = @ \o e.in]
    [] e.op = "pushres" -> [st EXCEPT !.res = e.in]
    [] e.op = "pulldp"  -> [st EXCEPT !.enc = <<>>, !.clear = <<>>]
    [] e.op = "pullsh"  -> [st EXCEPT !.sh = <<>>]
    [] e.op = "pullloc" -> [st EXCEPT !.loc = <<>>]
    [] e.op = "pullgr"  -> [st EXCEPT !.gr = <<>>]
    [] e.op = "pullres" -> [st EXCEPT !.res = <<>>]

\* Is what the pull returned right in this state?
PullOk(st, e) ==
  CASE e.op = "pulldp"  -> DpOk(st, e.out)
    [] e.op = "pullsh"  -> SameBag(Strip(e.out), Strip(st.sh))
    [] e.op = "pullloc" -> LocOk(st.loc, e.out)
    [] e.op = "pullgr"  -> SameBag(StripGA(e.out), StripGA(Noisy(Merged(st.gr), e.noise)))
    [] e.op = "pullres" -> StripGA(e.out) = StripGA(Noisy(st.res, e.noise))
    [] OTHER -> TRUE

IsPull(e) == e.op \in {"pulldp", "pullsh", "pullloc", "pullgr", "pullres"}

\* Concurrent histories: everything put in comes out exactly once in total, whatever the order.
Cat(evs, ops) == FoldLeft(LAMBDA s, e : IF e.op \in ops THEN s \o e.in ELSE s, <<>>, evs)
CatOut(evs, op) == FoldLeft(LAMBDA s, e : IF e.op = op THEN s \o e.out ELSE s, <<>>, evs)
Ins(evs, isEnc) == FoldLeft(LAMBDA s, e : IF e.op = "ins" /\ e.enc = isEnc THEN s \o e.in ELSE s, <<>>, evs)
TotalOk(evs) ==
  /\ LET enc == Ins(evs, TRUE)
         all == enc \o Ins(evs, FALSE)
         out == CatOut(evs, "pulldp")
     IN /\ Keys(out) = Keys(all)
        /\ \A k \in Keys(all) : KeySum(out, k) = KeySum(all, k) /\ NumKey(out, k) <= NumKey(all, k)
        /\ \A r \in Range(enc) : Cardinality({i \in DOMAIN out : out[i].g = r.g /\ out[i].w = r.w /\ out[i].a = r.a})
                                   >= Cardinality({i \in DOMAIN enc : enc[i].g = r.g /\ enc[i].w = r.w /\ enc[i].a = r.a})
  /\ SameBag(Strip(CatOut(evs, "pullsh")), Strip(Cat(evs, {"pushsh"})))
  /\ LET i == Cat(evs, {"pushdet"})
         o == CatOut(evs, "pullloc")
     IN Tags(i) = Tags(o) /\ \A t \in Tags(i) : TagSum(i, t) = TagSum(o, t)
=============================================================================
