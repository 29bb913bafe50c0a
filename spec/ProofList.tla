----------------------------- MODULE ProofList ------------------------------
(* The life of a list of published proofs: created for the elements of an         *)
(* operation, in batches of B, changed by somebody, verified up to a share.       *)
(* pub[i] is the index of the element it states and proves, 0 when it states       *)
(* something false or carries the proof of something else. Case generator.        *)
EXTENDS Common
CONSTANTS N, B, MaxAlts, Design, Emitting
ASSUME Design \in {"right", "skips", "batchwise", "overrun"}
VARIABLES n, pub, alts, q, verdict
vars == <<n, pub, alts, q, verdict>>
View == <<n, pub, q, verdict, Len(alts)>>
Kinds == {"change", "pre", "swap", "proof", "drop", "dup"}
Created(k) == [i \in 1..k |-> IF Design = "batchwise" THEN ((i - 1) \div B) * B + 1 ELSE i]
Init == /\ n \in 0..N
        /\ pub = Created(n)
        /\ alts = <<>> /\ q = 0 /\ verdict = "none"
Without(s, i) == [j \in 1..(Len(s) - 1) |-> IF j < i THEN s[j] ELSE s[j + 1]]
Apply(s, k, i, j) ==
  CASE k \in {"change", "pre"} -> [s EXCEPT ![i] = 0]
    [] k = "proof" -> IF s[i] = s[j] THEN s ELSE [s EXCEPT ![i] = 0]
    [] k = "swap" -> [s EXCEPT ![i] = s[j], ![j] = s[i]]
    [] k = "drop" -> Without(s, i)
    [] k = "dup" -> Append(s, s[i])
Alter == /\ verdict = "none" /\ Len(alts) < MaxAlts
         /\ \E k \in Kinds, i, j \in 1..Len(pub) :
              /\ pub' = Apply(pub, k, i, j)
              /\ alts' = Append(alts, [k |-> k, el |-> i, el2 |-> j])
         /\ UNCHANGED <<n, q, verdict>>
Share(k, len) == (k * len + 3) \div 4
Looked(k) == LET m == Share(k, Len(pub)) IN
  CASE Design = "skips" -> {i \in 1..m : i % B # 0 \/ i = m}
    [] OTHER -> 1..m
Verify == /\ verdict = "none"
          /\ \E k \in 0..4 :
               /\ q' = k
               /\ verdict' = IF Design = "overrun" /\ k < 4 /\ Len(pub) > 1 THEN "crash"
                             ELSE IF \A i \in Looked(k) : pub[i] # 0 THEN "accept" ELSE "reject"
          /\ UNCHANGED <<n, pub, alts>>
Next == Alter \/ Verify
Spec == Init /\ [][Next]_vars
AllTrue == \A i \in DOMAIN pub : pub[i] # 0
Sound == (verdict = "accept" /\ q = 4) => AllTrue
Complete == (verdict # "none" /\ AllTrue) => verdict = "accept"
Faithful == alts = <<>> => pub = [i \in 1..n |-> i]
EmitCase == (Emitting /\ verdict # "none") => Emit("CASE", [n |-> n, alts |-> alts, q |-> q])
=============================================================================
