----------------------------- MODULE Aggregation -----------------------------
(* Collective aggregation over a tree of servers, one action per protocol    *)
(* step of collective_aggregation_protocol.go:                               *)
(*   Announce: a server learns of the computation and tells its children;    *)
(*   Forward : a server that has both messages (length, data) of all its     *)
(*             children merges them and sends length, then data, upwards;    *)
(*   Deliver : the network hands the next message of a FIFO link over.       *)
(* Lengths and data of all children are each collected into one batch, in    *)
(* arrival order; Pairing = "sender" pairs them by sender (the design),      *)
(* "arrival" pairs them by position (a wrong design, kept as a check that    *)
(* the invariants can fail).                                                 *)
EXTENDS AggOps

CONSTANTS N, NGroups, MaxAttr, MaxVal, Pairing, Emitting, Shapes

VARIABLES parent, loaded, local, started, link, lenBox, dataBox, acc, sent, result, sched

vars == <<parent, loaded, local, started, link, lenBox, dataBox, acc, sent, result, sched>>

Servers == 1..N
Children(i) == {j \in Servers : parent[j] = i}

Vectors == UNION {[1..k -> 1..MaxVal] : k \in 1..MaxAttr}
\* local contents: every subset of the groups, one vector each
Locals == UNION {{ [k \in 1..Cardinality(S) |->
                      [g |-> SetToSeq(S)[k], by |-> <<SetToSeq(S)[k]>>, v |-> f[SetToSeq(S)[k]]]]
                   : f \in [S -> Vectors]} : S \in SUBSET (1..NGroups)}

Parents == {p \in [Servers -> 0..(N-1)] : p[1] = 0 /\ \A i \in 2..N : p[i] \in 1..(i-1)}

Init ==
  /\ parent \in (IF Shapes = "all" THEN Parents ELSE {p \in Parents : \A i \in 2..N : p[i] = 1})
  /\ loaded = 0
  /\ local = [i \in Servers |-> <<>>]
  /\ started = [i \in Servers |-> FALSE]
  /\ link = [i \in Servers |-> <<>>]          \* FIFO link from i to its parent
  /\ lenBox = [i \in Servers |-> <<>>]
  /\ dataBox = [i \in Servers |-> <<>>]
  /\ acc = [i \in Servers |-> <<>>]
  /\ sent = [i \in Servers |-> FALSE]
  /\ result = <<>>
  /\ sched = <<>>

\* The servers' contents are chosen first, one server after the other.
Load ==
  /\ loaded < N
  /\ loaded' = loaded + 1
  /\ \E c \in Locals : /\ local' = [local EXCEPT ![loaded + 1] = c]
                       /\ acc' = [acc EXCEPT ![loaded + 1] = c]
  /\ UNCHANGED <<parent, started, link, lenBox, dataBox, sent, result, sched>>

Announce(i) ==
  /\ loaded = N
  /\ ~started[i]
  /\ IF i = 1 THEN TRUE ELSE started[parent[i]]
  /\ started' = [started EXCEPT ![i] = TRUE]
  /\ sched' = IF i = 1 THEN sched ELSE Append(sched, <<parent[i], i>>)
  /\ UNCHANGED <<parent, loaded, local, link, lenBox, dataBox, acc, sent, result>>

\* How the receiver reads a data message: with the number of attributes announced by the length
\* message it is paired with. A wrong pairing loses everything but what both agree on.
Decode(len, data) == IF len = data.n THEN data.entries ELSE <<>>

Merge(a, entries) ==
  LET gs == GroupsOf(a) \cup GroupsOf(entries)
      s  == SetToSeq(gs)
  IN [k \in 1..Cardinality(gs) |->
        LET g == s[k] IN
        [g |-> g,
         by |-> IF g \in GroupsOf(a) THEN EntryOf(a, g).by ELSE EntryOf(entries, g).by,
         v  |-> IF g \in GroupsOf(a) /\ g \in GroupsOf(entries)
                  THEN PadAdd(EntryOf(a, g).v, EntryOf(entries, g).v)
                  ELSE IF g \in GroupsOf(a) THEN EntryOf(a, g).v ELSE EntryOf(entries, g).v]]

DataOf(box, c) == CHOOSE m \in Range(box) : m.from = c

Ready(i) ==
  /\ started[i]
  /\ Len(lenBox[i]) = Cardinality(Children(i))
  /\ Len(dataBox[i]) = Cardinality(Children(i))

Collected(i) ==
  FoldLeft(LAMBDA a, k :
             LET l == lenBox[i][k]
                 d == IF Pairing = "sender" THEN DataOf(dataBox[i], l.from) ELSE dataBox[i][k]
             IN Merge(a, Decode(l.n, d)),
           acc[i], [k \in 1..Len(lenBox[i]) |-> k])

Forward(i) ==
  /\ ~sent[i]
  /\ Ready(i)
  /\ LET m == Collected(i)
         n == FoldLeft(LAMBDA a, e : Max2(a, Len(e.v)), 0, m)
     IN /\ acc' = [acc EXCEPT ![i] = m]
        /\ sent' = [sent EXCEPT ![i] = TRUE]
        /\ IF i = 1
             THEN /\ result' = m
                  /\ UNCHANGED link
             ELSE /\ link' = [link EXCEPT ![i] = @ \o << [kind |-> "len", from |-> i, n |-> n],
                                                          [kind |-> "data", from |-> i, n |-> n, entries |-> m] >>]
                  /\ UNCHANGED result
  /\ UNCHANGED <<parent, loaded, local, started, lenBox, dataBox, sched>>

Deliver(i) ==
  /\ link[i] # <<>>
  /\ LET m == Head(link[i]) p == parent[i]
     IN /\ IF m.kind = "len"
             THEN lenBox' = [lenBox EXCEPT ![p] = Append(@, m)] /\ UNCHANGED dataBox
             ELSE dataBox' = [dataBox EXCEPT ![p] = Append(@, m)] /\ UNCHANGED lenBox
        /\ sched' = Append(sched, <<i, p>>)
  /\ link' = [link EXCEPT ![i] = Tail(@)]
  /\ UNCHANGED <<parent, loaded, local, started, acc, sent, result>>

Next == Load \/ \E i \in Servers : Announce(i) \/ Forward(i) \/ Deliver(i)

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Finished == sent[1]

TypeOK == /\ parent \in Parents
          /\ \A i \in Servers : Len(link[i]) <= 2

ExactlyOnce == Finished => ResultOk(local, result)
NoEarlyResult == Finished => \A i \in Servers : sent[i]
Terminates == <>Finished
NoLeftover == Finished => \A i \in Servers : link[i] = <<>>

\* the schedule is an observation only
View == <<parent, loaded, local, started, link, lenBox, dataBox, acc, sent, result>>

EmitCase == (Emitting /\ Finished) =>
   Emit("CASE", [parent |-> parent, local |-> local, sched |-> sched])
=============================================================================
