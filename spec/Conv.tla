------------------------------- MODULE Conv -------------------------------
(* Conversion of a list of responses (the first n elements of an array that goes on) into a matrix, the rows    *)
(* shuffled, and back. Design "copy" is the right one; "append" adds the response that a shuffle of one needs to   *)
(* the array itself, "nowhere" adds one without its WHERE attributes, "swap" reads the columns back in another     *)
(* order than they were written in, "drop" adds none and loses the row.                                            *)
EXTENDS ConvOps
CONSTANTS MaxRows, MaxCols, Design
VARIABLES array, n, matrix, lens, back, phase
vars == <<array, n, matrix, lens, back, phase>>

Given == SubSeq(array, 1, n)
\* the ciphertexts of an array of k responses with the given numbers of attributes, all different
Resp(i, ng, nw, na) == LET b == 10 * i IN [g |-> [j \in 1..ng |-> b + j], w |-> [j \in 1..nw |-> b + 3 + j], a |-> [j \in 1..na |-> b + 6 + j]]
Init ==
  /\ \E k \in 1..MaxRows, ng, nw, na \in 0..MaxCols :
       na > 0 /\ array = [i \in 1..k |-> Resp(i, ng, nw, na)]
  /\ n \in 0..Len(array)
  /\ matrix = <<>> /\ lens = <<>> /\ back = <<>>
  /\ phase = "given"
Dummy(r) == [g |-> r.g, w |-> IF Design = "nowhere" THEN <<>> ELSE r.w, a |-> [j \in DOMAIN r.a |-> 0]]
ToMatrix ==
  LET list == IF n = 1 /\ Design # "drop" THEN Given \o <<Dummy(array[1])>> ELSE Given IN
  /\ phase = "given"
  /\ matrix' = [i \in DOMAIN list |-> Row(list[i])]
  /\ lens' = [i \in DOMAIN list |-> <<Len(list[i].g), Len(list[i].w)>>]
  /\ array' = IF n = 1 /\ Design = "append" /\ Len(array) > 1 THEN [array EXCEPT ![2] = Dummy(array[1])] ELSE array
  /\ phase' = "matrix"
  /\ UNCHANGED <<n, back>>
Shuffle ==
  /\ phase = "matrix"
  /\ \E p \in [DOMAIN matrix -> DOMAIN matrix] :
       /\ \A i, j \in DOMAIN matrix : i # j => p[i] # p[j]
       /\ matrix' = IF Len(matrix) < 2 /\ Design = "drop" THEN <<>> ELSE [i \in DOMAIN matrix |-> matrix[p[i]]]
  /\ phase' = "shuffled"
  /\ UNCHANGED <<array, n, lens, back>>
Split(r, l) == IF Design = "swap" THEN [w |-> SubSeq(r, 1, l[2]), g |-> SubSeq(r, l[2] + 1, l[1] + l[2]), a |-> SubSeq(r, l[1] + l[2] + 1, Len(r))]
               ELSE [g |-> SubSeq(r, 1, l[1]), w |-> SubSeq(r, l[1] + 1, l[1] + l[2]), a |-> SubSeq(r, l[1] + l[2] + 1, Len(r))]
ToList ==
  /\ phase = "shuffled"
  /\ back' = [i \in DOMAIN matrix |-> Split(matrix[i], lens[i])]
  /\ phase' = "back"
  /\ UNCHANGED <<array, n, matrix, lens>>
Next == ToMatrix \/ Shuffle \/ ToList
Spec == Init /\ [][Next]_vars

Intact == phase = "back" => Stands(Given, back)
NotTouched == [][array' = array]_vars
=============================================================================
