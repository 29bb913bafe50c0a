------------------------------- MODULE Store -------------------------------
(* Histories of a store.  Encrypted responses are kept in an array; pulling  *)
(* hands it over.  Reuses="array" is the wrong design where the array handed  *)
(* over keeps being used by the store, so later insertions overwrite what an  *)
(* earlier pull returned; Forgets="no" keeps the clear sums after a pull.     *)
EXTENDS StoreOps
CONSTANTS MaxOps, Reuse, KeepClear, Emitting
VARIABLES st,      \* the store
          pulled,  \* what each pull returned, as its holder sees it now
          truth,   \* what each pull returned when it returned
          given,   \* rows inserted in total
          hist
vars == <<st, pulled, truth, given, hist>>
View == <<st, pulled, truth, given, Len(hist)>>

Vecs == {<<1>>, <<2>>}
Row(g, w, a) == [t |-> 0, g |-> g, w |-> w, a |-> a]

Init == st = Empty /\ pulled = <<>> /\ truth = <<>> /\ given = <<>> /\ hist = <<>>

\* with a reused array, position i of the new content overwrites position i of the last batch
Overwrite(batch, new) == [i \in DOMAIN batch |-> IF i <= Len(new) THEN new[i] ELSE batch[i]]

Insert(g, a, isEnc) ==
  LET r == Row(g, <<1>>, a)
      n == InsertDp(st, <<r>>, isEnc)
  IN /\ Len(hist) < MaxOps
     /\ st' = n
     /\ given' = Append(given, r)
     /\ pulled' = IF Reuse /\ isEnc /\ pulled # <<>> THEN [pulled EXCEPT ![Len(pulled)] = Overwrite(@, n.enc)] ELSE pulled
     /\ hist' = Append(hist, [op |-> "ins", g |-> g, a |-> a, enc |-> isEnc])
     /\ UNCHANGED truth

Pull ==
  LET ks == SetToSeq(Keys(st.clear))
      out == st.enc \o [i \in DOMAIN ks |-> Row(ks[i][1], ks[i][2], KeySum(st.clear, ks[i]))]
  IN /\ Len(hist) < MaxOps
     /\ pulled' = Append(pulled, out)
     /\ truth' = Append(truth, out)
     /\ st' = IF KeepClear THEN [st EXCEPT !.enc = <<>>] ELSE [st EXCEPT !.enc = <<>>, !.clear = <<>>]
     /\ hist' = Append(hist, [op |-> "pulldp", g |-> <<>>, a |-> <<>>, enc |-> FALSE])
     /\ UNCHANGED given

Next == (\E g \in Vecs, a \in {<<1>>, <<5>>}, e \in BOOLEAN : Insert(g, a, e)) \/ Pull
Spec == Init /\ [][Next]_vars

Flat(ss) == FoldLeft(LAMBDA x, s : x \o s, <<>>, ss)
\* exactly once: what is pulled plus what is stored equals what was given
ExactlyOnce == LET all == Flat(truth) \o st.enc \o st.clear
               IN Keys(all) = Keys(given) /\ \A k \in Keys(given) : KeySum(all, k) = KeySum(given, k)
Unchanged == pulled = truth
PullsRight == TRUE

EmitCase == (Emitting /\ Len(hist) = MaxOps) => Emit("CASE", [ops |-> hist])
=============================================================================
