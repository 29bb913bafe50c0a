------------------------------- MODULE AddRm --------------------------------
(* Versions of a data set: every version is made from an earlier one by adding or    *)
(* removing the contribution of one server. An element of a version is               *)
(* [id |-> plaintext, key |-> multiset of servers it is encrypted for]. B is the     *)
(* number of elements transformed by one thread. Case generator.                     *)
EXTENDS Common
CONSTANTS Servers, N, B, MaxOps, Design, Emitting
ASSUME Design \in {"right", "sign", "batch", "inplace", "last", "order"}
VARIABLES vers, hist, done
vars == <<vers, hist, done>>
View == <<vers, done>>
Zero == [s \in Servers |-> 0]
Version(k, d) == [key |-> k, data |-> d]
Init == /\ vers = <<Version(Zero, [i \in 1..N |-> [id |-> i, key |-> Zero]])>>
        /\ hist = <<>> /\ done = FALSE
Plus(k, s, d) == [k EXCEPT ![s] = @ + d]
\* which elements a transformation reaches
Reached(i) == CASE Design = "batch" -> i <= B
                [] Design = "last" -> i % B # 0 \/ i = N
                [] OTHER -> TRUE
Data(d, s, sign) ==
  [i \in DOMAIN d |->
     LET e == IF Design = "order" /\ N > B THEN d[Len(d) + 1 - i] ELSE d[i]
         g == IF Design = "sign" THEN 1 ELSE sign
     IN IF Reached(i) THEN [e EXCEPT !.key = Plus(@, s, g)] ELSE e]
Do == /\ ~done /\ Len(hist) < MaxOps
      /\ \E b \in DOMAIN vers, s \in Servers, add \in BOOLEAN :
           LET sign == IF add THEN 1 ELSE -1
               new == Version(Plus(vers[b].key, s, sign), Data(vers[b].data, s, sign))
           IN /\ vers' = Append(IF Design = "inplace" THEN [vers EXCEPT ![b].data = new.data] ELSE vers, new)
              /\ hist' = Append(hist, [base |-> b, s |-> s, add |-> add])
      /\ UNCHANGED done
Stop == /\ ~done /\ hist # <<>> /\ done' = TRUE /\ UNCHANGED <<vers, hist>>
Next == Do \/ Stop
Spec == Init /\ [][Next]_vars
\* every version, for ever, is the same plaintexts in the same order under its own key
Right == \A v \in DOMAIN vers : /\ Len(vers[v].data) = N
                                /\ \A i \in 1..N : vers[v].data[i] = [id |-> i, key |-> vers[v].key]
\* the same contributions give the same encryption
Back == \A v, w \in DOMAIN vers : vers[v].key = vers[w].key => vers[v].data = vers[w].data
EmitCase == (Emitting /\ done) => Emit("CASE", [ops |-> hist])
=============================================================================
