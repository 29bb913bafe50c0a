------------------------------- MODULE Local --------------------------------
(* Computations of one server that run side by side: an instance is created (its      *)
(* dispatcher begins to wait for the result), started (it computes and hands the       *)
(* result over) and read by whoever asked for it. Design "own": the result is handed   *)
(* over through a channel of the instance. Wrong designs: one channel per kind of      *)
(* computation, one place per kind holding the latest result, a result handed over     *)
(* twice or lost when nobody waits. Schedule generator: hist is what the caller does.  *)
EXTENDS Common
CONSTANTS N, Kinds, Design, Emitting
ASSUME Design \in {"own", "perkind", "place", "lossy", "twice"}
I == 1..N
VARIABLES kind, made, started, sender, recv, reading, got, place, copies, hist, over
vars == <<kind, made, started, sender, recv, reading, got, place, copies, hist, over>>
View == <<kind, made, started, sender, recv, reading, got, place, copies, over>>
Init == /\ kind \in [I -> Kinds]
        /\ made = {} /\ started = {} /\ reading = {}
        /\ sender = [i \in I |-> "idle"]       \* idle, computing, sending, done
        /\ recv = [i \in I |-> 0]              \* 0: waiting, j: holds the result of j, -1: done
        /\ got = [i \in I |-> <<>>]
        /\ place = [k \in Kinds |-> 0]
        /\ copies = [i \in I |-> 1]
        /\ hist = <<>> /\ over = FALSE
Did(what, i) == hist' = Append(hist, [op |-> what, i |-> i])
Create(i) == /\ i \notin made /\ ~over
             /\ \A j \in 1..(i - 1) : j \in made
             /\ made' = made \cup {i} /\ Did("create", i)
             /\ UNCHANGED <<kind, started, sender, recv, reading, got, place, copies, over>>
Start(i) == /\ i \in made /\ i \notin started /\ ~over
            /\ started' = started \cup {i} /\ Did("start", i)
            /\ sender' = [sender EXCEPT ![i] = "computing"]
            /\ UNCHANGED <<kind, made, recv, reading, got, place, copies, over>>
Read(i) == /\ i \in started /\ i \notin reading /\ ~over
           /\ reading' = reading \cup {i} /\ Did("read", i)
           /\ UNCHANGED <<kind, made, started, sender, recv, got, place, copies, over>>
Over == /\ started # {} /\ started = reading /\ ~over /\ over' = TRUE
        /\ UNCHANGED <<kind, made, started, sender, recv, reading, got, place, copies, hist>>
Compute(i) == /\ sender[i] = "computing"
              /\ sender' = [sender EXCEPT ![i] = "sending"]
              /\ place' = [place EXCEPT ![kind[i]] = i]
              /\ UNCHANGED <<kind, made, started, recv, reading, got, copies, hist, over>>
SameChan(i, j) == IF Design = "perkind" THEN kind[i] = kind[j] ELSE i = j
Waits(j) == j \in made /\ recv[j] = 0
Hand(i, j) == /\ sender[i] = "sending" /\ Waits(j) /\ SameChan(i, j)
              /\ sender' = [sender EXCEPT ![i] = "done"]
              /\ recv' = [recv EXCEPT ![j] = IF Design = "place" THEN place[kind[i]] ELSE i]
              /\ UNCHANGED <<kind, made, started, reading, got, place, copies, hist, over>>
Lose(i) == /\ Design = "lossy" /\ sender[i] = "sending" /\ i \notin reading
           /\ sender' = [sender EXCEPT ![i] = "done"]
           /\ UNCHANGED <<kind, made, started, recv, reading, got, place, copies, hist, over>>
Deliver(j) == /\ recv[j] > 0 /\ j \in reading
              /\ got' = [got EXCEPT ![j] = Append(@, recv[j])]
              /\ IF Design = "twice" /\ copies[j] = 1
                 THEN copies' = [copies EXCEPT ![j] = 0] /\ UNCHANGED recv
                 ELSE recv' = [recv EXCEPT ![j] = -1] /\ UNCHANGED copies
              /\ UNCHANGED <<kind, made, started, sender, reading, place, hist, over>>
Inside == \/ \E i \in I : Compute(i) \/ Deliver(i) \/ Lose(i)
          \/ \E i, j \in I : Hand(i, j)
Outside == Over \/ \E i \in I : Create(i) \/ Start(i) \/ Read(i)
Next == Inside \/ Outside
Spec == Init /\ [][Next]_vars
Own == \A i \in I : got[i] \in {<<>>, <<i>>}
Delivered == ~ENABLED Inside => \A i \in I : (i \in started /\ i \in reading) => got[i] = <<i>>
Uncalled == \A i \in I : i \notin started => got[i] = <<>>
EmitCase == (Emitting /\ over) => Emit("CASE", [kinds |-> kind, hist |-> hist])
=============================================================================
