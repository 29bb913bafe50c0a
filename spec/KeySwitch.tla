------------------------------ MODULE KeySwitch ------------------------------
(* Key switching on a tree of servers, with ElGamal over a small group.       *)
(* The root announces the target key and the ephemeral points; each server    *)
(* contributes, per element, a fresh [k |-> v, c |-> v*T - priv*rB]; inner    *)
(* servers add up their children's contributions (two FIFO messages each:     *)
(* length, then data) and pass the sum upwards.                               *)
EXTENDS Group
CONSTANTS N, L, Faults, Vals, WaitsForAll, Emitting

VARIABLES parent, input, started, link, lenBox, dataBox, contrib, sent, result, lost, sched

vars == <<parent, input, started, link, lenBox, dataBox, contrib, sent, result, lost, sched>>
View == <<parent, input, started, link, lenBox, dataBox, contrib, sent, result, lost>>

Servers == 1..N
Children(i) == {j \in Servers : parent[j] = i}
Parents == {p \in [Servers -> 0..(N-1)] : p[1] = 0 /\ \A i \in 2..N : p[i] \in 1..(i-1)}
priv == [i \in Servers |-> Md(i + 1)]
target == 3                     \* target private key (its public key is 3B)
FullKey == KeyOf(priv, Servers)
Cipher(e) == Enc(FullKey, input[e], e + 1)
Fresh(i, e) == Md(i * 2 + e)
Own(i) == [e \in 1..L |-> LET v == Fresh(i, e) IN [k |-> v, c |-> Md(v * target - priv[i] * Cipher(e).k)]]

Init == /\ parent \in Parents
        /\ input \in [1..L -> Vals]
        /\ started = [i \in Servers |-> FALSE]
        /\ link = [i \in Servers |-> <<>>]
        /\ lenBox = [i \in Servers |-> <<>>]
        /\ dataBox = [i \in Servers |-> <<>>]
        /\ contrib = [i \in Servers |-> <<>>]
        /\ sent = [i \in Servers |-> FALSE]
        /\ result = <<>>
        /\ lost = FALSE
        /\ sched = <<>>

Announce(i) ==
  /\ ~started[i]
  /\ IF i = 1 THEN TRUE ELSE started[parent[i]]
  /\ started' = [started EXCEPT ![i] = TRUE]
  /\ contrib' = [contrib EXCEPT ![i] = Own(i)]
  /\ sched' = IF i = 1 THEN sched ELSE Append(sched, <<parent[i], i>>)
  /\ UNCHANGED <<parent, input, link, lenBox, dataBox, sent, result, lost>>

Ready(i) ==
  /\ started[i]
  /\ IF WaitsForAll
       THEN /\ Len(lenBox[i]) = Cardinality(Children(i))
            /\ Len(dataBox[i]) = Cardinality(Children(i))
       ELSE Children(i) # {} => Len(dataBox[i]) > 0

Forward(i) ==
  /\ ~sent[i]
  /\ Ready(i)
  /\ LET sum == FoldLeft(LAMBDA a, m : [e \in 1..L |-> CtAdd(a[e], m[e])], contrib[i], dataBox[i])
     IN /\ contrib' = [contrib EXCEPT ![i] = sum]
        /\ sent' = [sent EXCEPT ![i] = TRUE]
        /\ IF i = 1
             THEN /\ result' = [e \in 1..L |-> [k |-> sum[e].k, c |-> Md(sum[e].c + Cipher(e).c)]]
                  /\ UNCHANGED link
             ELSE /\ link' = [link EXCEPT ![i] = @ \o <<[kind |-> "len", v |-> <<>>], [kind |-> "data", v |-> sum]>>]
                  /\ UNCHANGED result
  /\ UNCHANGED <<parent, input, started, lenBox, dataBox, lost, sched>>

Deliver(i) ==
  /\ link[i] # <<>>
  /\ LET m == Head(link[i]) p == parent[i]
     IN /\ IF m.kind = "len"
             THEN lenBox' = [lenBox EXCEPT ![p] = Append(@, i)] /\ UNCHANGED dataBox
             ELSE dataBox' = [dataBox EXCEPT ![p] = Append(@, m.v)] /\ UNCHANGED lenBox
        /\ sched' = Append(sched, <<i, p>>)
  /\ link' = [link EXCEPT ![i] = Tail(@)]
  /\ UNCHANGED <<parent, input, started, contrib, sent, result, lost>>

Lose(i) ==
  /\ Faults
  /\ ~lost
  /\ link[i] # <<>>
  /\ lost' = TRUE
  /\ \E k \in DOMAIN link[i] : link' = [link EXCEPT ![i] = RemoveAt(@, k)]
  /\ UNCHANGED <<parent, input, started, lenBox, dataBox, contrib, sent, result, sched>>

Next == \E i \in Servers : Announce(i) \/ Forward(i) \/ Deliver(i) \/ Lose(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == sent[1]
Switched == Done => \A e \in 1..L : Dec(target, result[e]) = input[e]
NoPartial == lost => ~Done
Terminates == (~Faults) => <>Done
EmitCase == (Emitting /\ Done) => Emit("CASE", [parent |-> parent, sched |-> sched])
=============================================================================
