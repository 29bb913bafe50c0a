------------------------------ MODULE Pipeline ------------------------------
(* What happens to the data of a survey, from the uploads to the answer: every *)
(* server collects the responses announced to it (those in clear are summed up  *)
(* per group and filter value at once), shuffles them with the others' help,    *)
(* has them tagged, filters them by their tags, and sums them up per tag; when  *)
(* every server has done so the sums are added up over the servers and switched  *)
(* to the querier's key.  Ciphertexts are terms: a value and whose randomness,   *)
(* order or secret is on it.  The answer must be the query's value over the      *)
(* plaintext data, as SurveyOps defines it for the real service.                 *)
EXTENDS SurveyOps
CONSTANTS N,            \* servers
          MaxRows,      \* responses per server
          MaxAll,       \* responses altogether
          Vals,         \* values to be summed up
          Design,       \* "right", or what is wrong
          Emitting
VARIABLES data, clear, ast, up, asked, stage, rows, sums, fin, total, answered, hist
vars == <<data, clear, ast, up, asked, stage, rows, sums, fin, total, answered, hist>>
View == <<data, clear, ast, up, asked, stage, rows, sums, fin, total, answered>>
Servers == 1..N
Asker == 1
Row == [g : 0..1, w : 0..1, v : Vals]
Lists == UNION {[1..k -> Row] : k \in 0..MaxRows}
Asts == {[op |-> "eq", a |-> 0, b |-> 1], [op |-> "ne", a |-> 0, b |-> 1], [op |-> "true"]}
WhereValue == 1
Sum(f, S) == FoldSet(LAMBDA s, a : f[s] + a, 0, S)

\* the query and the data as SurveyOps sees them
Q == [ns |-> 1, ng |-> 1, where |-> <<WhereValue>>, count |-> TRUE, ast |-> ast,
      dps |-> [s \in Servers |-> [at |-> s, rep |-> 1,
               resp |-> [i \in DOMAIN data[s] |-> [g |-> <<data[s][i].g>>, w |-> <<data[s][i].w>>, s |-> <<data[s][i].v>>, miss |-> <<>>]]]]]

Init == /\ data \in {d \in [Servers -> Lists] : Sum([s \in Servers |-> Len(d[s])], Servers) <= MaxAll}
        /\ clear \in BOOLEAN
        /\ ast \in Asts
        /\ up = [s \in Servers |-> 0] /\ asked = FALSE /\ stage = [s \in Servers |-> "collect"]
        /\ rows = [s \in Servers |-> <<>>] /\ sums = [s \in Servers |-> {}] /\ fin = {} /\ total = {} /\ answered = FALSE /\ hist = <<>>

\* sums up the rows that agree on what the server can see of them
Merge(rs, Same(_, _)) ==
  FoldLeft(LAMBDA acc, r : LET is == {i \in DOMAIN acc : Same(acc[i], r)}
                           IN IF is = {} THEN Append(acc, r) ELSE LET i == CHOOSE i \in is : TRUE IN [acc EXCEPT ![i] = [@ EXCEPT !.v = @ + r.v, !.n = @ + r.n]],
           <<>>, rs)
Received(s) == LET rs == [i \in 1..up[s] |-> [g |-> data[s][i].g, w |-> data[s][i].w, v |-> data[s][i].v, n |-> 1]]
               IN IF ~clear THEN rs
                  ELSE Merge(rs, LAMBDA a, b : a.g = b.g /\ (Design = "clearbygroup" \/ a.w = b.w))

Upload(s) == /\ up[s] < Len(data[s])
             /\ up' = [up EXCEPT ![s] = @ + 1]
             /\ hist' = Append(hist, [e |-> "up", at |-> s, k |-> up[s] + 1])
             /\ UNCHANGED <<data, clear, ast, asked, stage, rows, sums, fin, total, answered>>
Ask == /\ ~asked
       /\ asked' = TRUE
       /\ hist' = Append(hist, [e |-> "ask", at |-> Asker, k |-> 0])
       /\ UNCHANGED <<data, clear, ast, up, stage, rows, sums, fin, total, answered>>

\* a single row is not shuffled alone: another one that counts for nothing goes with it
Padded(rs) == IF Len(rs) # 1 THEN rs
              ELSE Append(rs, CASE Design = "copyadded" -> rs[1]
                                [] Design = "countadded" -> [rs[1] EXCEPT !.v = 0]
                                [] Design = "nowhereadded" -> [g |-> 0, w |-> 0, v |-> 0, n |-> 0]
                                [] OTHER -> [rs[1] EXCEPT !.v = 0, !.n = 0])
Shuffle(s) == /\ asked /\ stage[s] = "collect"
              /\ Design = "partial" \/ up[s] = Len(data[s])
              /\ LET rs == Padded(Received(s))
                 IN \E p \in Permutations(DOMAIN rs), q \in Permutations(DOMAIN rs) :
                      /\ Design # "columns" => q = p
                      /\ rows' = [rows EXCEPT ![s] = [i \in DOMAIN rs |-> [g |-> rs[p[i]].g, w |-> rs[q[i]].w, v |-> rs[p[i]].v, n |-> rs[p[i]].n]]]
              /\ stage' = [stage EXCEPT ![s] = "shuffled"]
              /\ UNCHANGED <<data, clear, ast, up, asked, sums, fin, total, answered, hist>>
\* a tag shows the value to nobody, but whether two values are equal to everybody
TagOf(s, x) == <<x, IF Design = "ownsecret" THEN {s} ELSE Servers>>
Tag(s) == /\ stage[s] = "shuffled"
          /\ rows' = [rows EXCEPT ![s] = [i \in DOMAIN @ |-> [tg |-> TagOf(s, @[i].g), tw |-> TagOf(s, @[i].w), g |-> @[i].g, v |-> @[i].v, n |-> @[i].n]]]
          /\ stage' = [stage EXCEPT ![s] = "tagged"]
          /\ UNCHANGED <<data, clear, ast, up, asked, sums, fin, total, answered, hist>>
\* the predicate over tags
Keeps(r, s) == CASE ast.op = "true" -> TRUE
                 [] ast.op = "eq" -> r.tw = TagOf(s, WhereValue)
                 [] ast.op = "ne" -> r.tw # TagOf(s, WhereValue)
Filter(s) == /\ stage[s] = "tagged"
             /\ LET kept == IF Design = "nofilter" THEN rows[s] ELSE SelectSeq(rows[s], LAMBDA r : Keeps(r, s))
                IN sums' = [sums EXCEPT ![s] = Range(IF Design = "last" THEN [i \in DOMAIN kept |-> kept[CHOOSE j \in DOMAIN kept : kept[j].tg = kept[i].tg /\ \A k \in DOMAIN kept : kept[k].tg = kept[i].tg => k <= j]]
                                                         ELSE Merge(kept, LAMBDA a, b : a.tg = b.tg))]
             /\ stage' = [stage EXCEPT ![s] = "summed"]
             /\ fin' = fin \cup {s}
             /\ UNCHANGED <<data, clear, ast, up, asked, rows, total, answered, hist>>
\* the sums of all servers, group by group
Aggregate == /\ asked /\ ~answered /\ stage[Asker] = "summed"
             /\ Design = "early" \/ fin = Servers
             /\ LET all == SetToSeq(UNION {{[s |-> s, r |-> r] : r \in sums[s]} : s \in Servers})
                IN total' = Range(Merge([i \in DOMAIN all |-> all[i].r], LAMBDA a, b : a.tg = b.tg))
             /\ answered' = TRUE
             /\ UNCHANGED <<data, clear, ast, up, asked, stage, rows, sums, fin, hist>>
Next == Ask \/ Aggregate \/ \E s \in Servers : Upload(s) \/ Shuffle(s) \/ Tag(s) \/ Filter(s)
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Next)

Exact == answered => AnswerOk(Q, SetToSeq({[g |-> <<r.g>>, a |-> <<r.v, r.n>>] : r \in total}))
\* after the shuffle a server's rows carry no order of arrival: both orders are there to be chosen (see Ring for the probabilities)
Ends == <>[]answered
EmitCase == (Emitting /\ answered) => Emit("CASE", [data |-> data, clear |-> clear, ast |-> ast, ev |-> hist])
=============================================================================
