------------------------------- MODULE Survey -------------------------------
(* Life of one survey on N servers: creation (broadcast and acknowledgements), *)
(* uploads of the data providers, the results request and its broadcast, local  *)
(* shuffling/tagging, the tagging-finished notifications, aggregation, answer.  *)
(* Service messages can be delivered in any order; up to Losses messages (of    *)
(* the services, or of the protocols a server runs to tag its data, or of the    *)
(* aggregation and key switching) are lost, and time-outs then end the wait.     *)
EXTENDS Common
CONSTANTS N,                \* servers
          Prov,             \* which distribution of the data providers over the servers
          CreationBarrier,  \* acknowledge only when all servers know the survey
          UploadBarrier,    \* a server waits for its announced uploads
          TagBarrier,       \* the aggregation waits until all servers have tagged
          StalePut,         \* wrong design: an upload writes back the survey record it read
          Losses,           \* messages that can be lost
          GoesOn,           \* wrong design: after a time-out in this wait the server goes on ("tag", "ddt" or "none")
          Emitting
VARIABLES created, known, acks, acked, msgs, up, snap, key, asked, phase, got, ddt, answer, answered, failed, lost, cfailed, hist
vars == <<created, known, acks, acked, msgs, up, snap, key, asked, phase, got, ddt, answer, answered, failed, lost, cfailed, hist>>
View == <<created, known, acks, acked, msgs, up, snap, key, asked, phase, got, ddt, answer, answered, failed, lost, cfailed>>
Servers == 1..N
\* server of each data provider: none, one, two on one server, one on each of two, three spread, ...
Provider == CASE Prov = 0 -> <<>>
              [] Prov = 1 -> <<1>>
              [] Prov = 2 -> <<2>>
              [] Prov = 3 -> <<1, 2>>
              [] Prov = 4 -> <<2, 2>>
              [] Prov = 5 -> <<1, 2, 3>>
              [] Prov = 6 -> <<2, 3, 3>>
              [] Prov = 7 -> <<1, 1, 3, 4>>
DPs == DOMAIN Provider
DPsAt(s) == {d \in DPs : Provider[d] = s}
Ev(e) == hist' = Append(hist, e)
Event(e, d) == [e |-> e, d |-> d, t |-> "", f |-> 0, to |-> 0]
Delivery(m) == [e |-> "dl", d |-> 0, t |-> m.t, f |-> m.f, to |-> m.to]
Msg(t, f, to) == [t |-> t, f |-> f, to |-> to]

Init == /\ created = FALSE /\ known = {} /\ acks = 0 /\ acked = FALSE /\ msgs = {}
        /\ up = [d \in DPs |-> "no"] /\ snap = [d \in DPs |-> FALSE]
        /\ key = [s \in Servers |-> FALSE]
        /\ asked = 0 /\ phase = [s \in Servers |-> "idle"] /\ got = [s \in Servers |-> {}]
        /\ ddt = [s \in Servers |-> 0] /\ answer = {} /\ answered = "no" /\ failed = FALSE /\ lost = 0 /\ cfailed = FALSE /\ hist = <<>>

Create == /\ ~created
          /\ created' = TRUE
          /\ known' = {1}
          /\ msgs' = {Msg("create", 1, j) : j \in 2..N}
          /\ Ev(Event("create", 0))
          /\ UNCHANGED <<acks, acked, up, snap, key, asked, phase, got, ddt, answer, answered, failed, lost, cfailed>>
DlCreate(m) == /\ m.t = "create"
               /\ known' = known \cup {m.to}
               /\ msgs' = (msgs \ {m}) \cup {Msg("ack", m.to, 1)}
               /\ Ev(Delivery(m))
               /\ UNCHANGED <<created, acks, acked, up, snap, key, asked, phase, got, ddt, answer, answered, failed, lost, cfailed>>
DlAck(m) == /\ m.t = "ack"
            /\ acks' = acks + 1
            /\ msgs' = msgs \ {m}
            /\ Ev(Delivery(m))
            /\ UNCHANGED <<created, known, acked, up, snap, key, asked, phase, got, ddt, answer, answered, failed, lost, cfailed>>
Acknowledge == /\ created /\ ~acked /\ ~cfailed
               /\ (acks = N - 1) \/ ~CreationBarrier
               /\ acked' = TRUE
               /\ Ev(Event("acked", 0))
               /\ UNCHANGED <<created, known, acks, msgs, up, snap, key, asked, phase, got, ddt, answer, answered, failed, lost, cfailed>>
UpBegin(d) == /\ acked /\ up[d] = "no"
              /\ up' = [up EXCEPT ![d] = "begun"]
              /\ snap' = [snap EXCEPT ![d] = key[Provider[d]]]
              /\ failed' = (failed \/ Provider[d] \notin known)
              /\ Ev(Event("upbegin", d))
              /\ UNCHANGED <<created, known, acks, acked, msgs, key, asked, phase, got, ddt, answer, answered, lost, cfailed>>
UpEnd(d) == /\ up[d] = "begun"
            /\ up' = [up EXCEPT ![d] = "done"]
            /\ key' = IF StalePut THEN [key EXCEPT ![Provider[d]] = snap[d]] ELSE key
            /\ Ev(Event("upend", d))
            /\ UNCHANGED <<created, known, acks, acked, msgs, snap, asked, phase, got, ddt, answer, answered, failed, lost, cfailed>>
Ask(s) == /\ acked /\ asked = 0
          /\ asked' = s
          /\ key' = [key EXCEPT ![s] = TRUE]
          /\ phase' = [phase EXCEPT ![s] = "wait"]
          /\ msgs' = msgs \cup {Msg("results", s, j) : j \in Servers \ {s}}
          /\ Ev(Event("ask", s))
          /\ UNCHANGED <<created, known, acks, acked, up, snap, got, ddt, answer, answered, failed, lost, cfailed>>
DlResults(m) == /\ m.t = "results"
                /\ key' = [key EXCEPT ![m.to] = TRUE]
                /\ phase' = [phase EXCEPT ![m.to] = "wait"]
                /\ msgs' = msgs \ {m}
                /\ failed' = (failed \/ m.to \notin known)
                /\ Ev(Delivery(m))
                /\ UNCHANGED <<created, known, acks, acked, up, snap, asked, got, ddt, answer, answered, lost, cfailed>>
Tag(s) == /\ phase[s] = "wait"
          /\ (\A d \in DPsAt(s) : up[d] = "done") \/ ~UploadBarrier
          /\ phase' = [phase EXCEPT ![s] = "tagged"]
          /\ got' = [got EXCEPT ![s] = {d \in DPsAt(s) : up[d] = "done"}]
          /\ msgs' = msgs \cup {Msg("ddt", s, j) : j \in Servers \ {s}}
          /\ UNCHANGED <<created, known, acks, acked, up, snap, key, asked, ddt, answer, answered, failed, lost, cfailed, hist>>
DlDdt(m) == /\ m.t = "ddt"
            /\ ddt' = [ddt EXCEPT ![m.to] = @ + 1]
            /\ msgs' = msgs \ {m}
            /\ Ev(Delivery(m))
            /\ UNCHANGED <<created, known, acks, acked, up, snap, key, asked, phase, got, answer, answered, failed, lost, cfailed>>
Aggregate == /\ asked # 0 /\ answered = "no"
             /\ phase[asked] = "tagged"
             /\ (ddt[asked] = N - 1) \/ ~TagBarrier
             /\ answer' = UNION {got[s] : s \in Servers}
             /\ answered' = "summed"
             /\ UNCHANGED <<created, known, acks, acked, msgs, up, snap, key, asked, phase, got, ddt, failed, lost, cfailed, hist>>
AnswerOut == /\ answered = "summed"
             /\ \A s \in Servers : ddt[s] = N - 1
             /\ answered' = "yes"
             /\ UNCHANGED <<created, known, acks, acked, msgs, up, snap, key, asked, phase, got, ddt, answer, failed, lost, cfailed, hist>>
\* ---- losses: a message of the services, or what server s needs to tag its data, or the summing up
Lose(m) == /\ lost < Losses
           /\ msgs' = msgs \ {m}
           /\ lost' = lost + 1
           /\ Ev([Delivery(m) EXCEPT !.e = "lose"])
           /\ UNCHANGED <<created, known, acks, acked, up, snap, key, asked, phase, got, ddt, answer, answered, failed, cfailed>>
LoseTag(s) == /\ lost < Losses
              /\ phase[s] = "wait"
              /\ phase' = [phase EXCEPT ![s] = "stuck"]
              /\ lost' = lost + 1
              /\ Ev([Event("losetag", 0) EXCEPT !.f = s])
              /\ UNCHANGED <<created, known, acks, acked, msgs, up, snap, key, asked, got, ddt, answer, answered, failed, cfailed>>
LoseSum == /\ lost < Losses
           /\ asked # 0 /\ answered = "no"
           /\ phase[asked] = "tagged" /\ ddt[asked] = N - 1
           /\ answered' = "stuck"
           /\ lost' = lost + 1
           /\ Ev(Event("losesum", 0))
           /\ UNCHANGED <<created, known, acks, acked, msgs, up, snap, key, asked, phase, got, ddt, answer, failed, cfailed>>
\* ---- the time-outs that losses lead to (none of them is in a schedule: they fire when nothing else is left)
Timing == Losses > 0 /\ ~Emitting
TimeoutCreate == /\ Timing /\ created /\ ~acked /\ ~cfailed
                 /\ cfailed' = TRUE
                 /\ UNCHANGED <<created, known, acks, acked, msgs, up, snap, key, asked, phase, got, ddt, answer, answered, failed, lost, hist>>
TimeoutTag(s) == /\ Timing /\ phase[s] \in {"wait", "stuck"}
                 /\ phase' = [phase EXCEPT ![s] = IF GoesOn = "tag" THEN "tagged" ELSE "failed"]
                 /\ msgs' = IF GoesOn = "tag" THEN msgs \cup {Msg("ddt", s, j) : j \in Servers \ {s}} ELSE msgs
                 /\ answered' = IF GoesOn # "tag" /\ s = asked /\ answered = "no" THEN "error" ELSE answered
                 /\ UNCHANGED <<created, known, acks, acked, up, snap, key, asked, got, ddt, answer, failed, lost, cfailed, hist>>
TimeoutDdt == /\ Timing /\ asked # 0 /\ answered = "no" /\ phase[asked] = "tagged" /\ ddt[asked] < N - 1
              /\ answered' = IF GoesOn = "ddt" THEN "summed" ELSE "error"
              /\ answer' = IF GoesOn = "ddt" THEN UNION {got[s] : s \in Servers} ELSE answer
              /\ UNCHANGED <<created, known, acks, acked, msgs, up, snap, key, asked, phase, got, ddt, failed, lost, cfailed, hist>>
TimeoutSum == /\ Timing /\ answered \in {"summed", "stuck"}
              /\ answered' = "error"
              /\ UNCHANGED <<created, known, acks, acked, msgs, up, snap, key, asked, phase, got, ddt, answer, failed, lost, cfailed, hist>>
Loss == (Emitting => asked # 0) /\ ((\E m \in msgs : Lose(m)) \/ (\E s \in Servers : LoseTag(s)) \/ LoseSum)
Timeouts == TimeoutCreate \/ (\E s \in Servers : TimeoutTag(s)) \/ TimeoutDdt \/ TimeoutSum
Dl == \E m \in msgs : DlCreate(m) \/ DlAck(m) \/ DlResults(m) \/ DlDdt(m)
Go   == \/ Create
        \/ Dl
        \/ Acknowledge
        \/ \E d \in DPs : UpBegin(d) \/ UpEnd(d)
        \/ \E s \in Servers : Ask(s) \/ Tag(s)
        \/ Aggregate \/ AnswerOut
Next == Go \/ Loss \/ Timeouts
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Create) /\ WF_vars(Dl) /\ WF_vars(Acknowledge) /\ WF_vars(Aggregate) /\ WF_vars(AnswerOut)
                 /\ \A d \in DPs : WF_vars(UpBegin(d)) /\ WF_vars(UpEnd(d))
                 /\ WF_vars(\E s \in Servers : Ask(s)) /\ (\A s \in Servers : WF_vars(Tag(s)))
                 /\ WF_vars(TimeoutCreate) /\ WF_vars(TimeoutDdt) /\ WF_vars(TimeoutSum) /\ \A s \in Servers : WF_vars(TimeoutTag(s))

AckMeansKnown == acked => known = Servers
NothingRefused == ~failed
Complete == answered \in {"summed", "yes"} => answer = DPs
ForTheQuerier == answered = "yes" => key[asked]
Answered == <>(answered = "yes")
\* with losses: every request ends, with an answer or an error
Ends == <>(answered \in {"yes", "error"} \/ cfailed)
EmitCase == (Emitting /\ (answered = "yes" \/ (lost > 0 /\ ~ENABLED Go))) => Emit("CASE", [ev |-> hist, n |-> N, prov |-> Provider, asker |-> asked])
=============================================================================
