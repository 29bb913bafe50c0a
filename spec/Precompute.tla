----------------------------- MODULE Precompute -----------------------------
(* The file of precomputed shuffle randomness shared by the surveys of one     *)
(* server: surveys with different collective keys and widths, writes that are   *)
(* interrupted, several creations at once, damage. A survey gets randomness for *)
(* its own key that is wide enough, whatever the file holds.                    *)
EXTENDS Common
CONSTANTS Keys, Widths, MaxOps,
          Policy,       \* "check": use the file only if it fits; wrong designs "blind", "keyonly"
          Emitting
VARIABLES file,         \* what the file holds
          got,          \* what the last creations were given
          hist
vars == <<file, got, hist>>
View == <<file, got, Len(hist)>>
None == [st |-> "none", k |-> 0, w |-> 0]
Whole(k, w) == [st |-> "whole", k |-> k, w |-> w]
Part == [st |-> "part", k |-> 0, w |-> 0]
Other == [st |-> "mixed", k |-> 0, w |-> 0]     \* readable, but not what any survey wrote
Fits(k, w) == CASE Policy = "check" -> file.st = "whole" /\ file.k = k /\ file.w >= w
                [] Policy = "blind" -> file.st \in {"whole", "mixed"}
                [] Policy = "keyonly" -> file.st = "whole" /\ file.k = k
Op(o, k, w) == hist' = Append(hist, [op |-> o, k |-> k, w |-> w])
Init == file = None /\ got = {} /\ hist = <<>>
Give(k, w, gk, gw) == got' = {[k |-> k, w |-> w, gk |-> gk, gw |-> gw]}

\* a survey is created: the file is used, or written anew
Reuse(k, w) == /\ Fits(k, w)
               /\ Give(k, w, file.k, file.w)
               /\ Op("create", k, w)
               /\ UNCHANGED file
Renew(k, w) == /\ ~Fits(k, w)
               /\ \/ Policy # "blind"
                  \/ file.st = "none"
               /\ Give(k, w, k, 2 * w)
               /\ file' = Whole(k, 2 * w)
               /\ Op("create", k, w)
\* the blind design does not get past a file it cannot read
Stuck(k, w) == /\ Policy = "blind" /\ file.st = "part"
               /\ got' = {[k |-> k, w |-> w, gk |-> 0, gw |-> 0]}
               /\ Op("create", k, w)
               /\ UNCHANGED file
\* the server stops in the middle of a write; or two write at once
Interrupt(k, w) == /\ ~Fits(k, w)
                   /\ file' = Part
                   /\ Op("interrupt", k, w)
                   /\ got' = {}
Damage == /\ file.st # "none"
          /\ file' \in {Part, Other, None}
          /\ Op(IF file' = Part THEN "cut" ELSE IF file' = Other THEN "mix" ELSE "delete", 0, 0)
          /\ got' = {}
Next == /\ Len(hist) < MaxOps
        /\ \/ \E k \in Keys, w \in Widths : Reuse(k, w) \/ Renew(k, w) \/ Stuck(k, w) \/ Interrupt(k, w)
           \/ Damage
Spec == Init /\ [][Next]_vars
Usable == \A g \in got : g.gk = g.k /\ g.gw >= g.w
EmitCase == (Emitting /\ Len(hist) = MaxOps) => Emit("CASE", [ops |-> hist])
=============================================================================
