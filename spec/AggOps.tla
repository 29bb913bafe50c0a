------------------------------- MODULE AggOps -------------------------------
(* What a collective aggregation must compute.  A server's local data is a  *)
(* sequence of entries [g |-> group, by |-> grouping values, v |-> vector]   *)
(* with pairwise different groups.                                           *)
EXTENDS Common

GroupsOf(loc) == {e.g : e \in Range(loc)}
EntryOf(loc, g) == CHOOSE e \in Range(loc) : e.g = g

\* The union of the groups of all servers with attribute-wise sums.
Collective(locals) ==
  LET gs == UNION {GroupsOf(locals[i]) : i \in DOMAIN locals}
  IN [g \in gs |->
        [by |-> (EntryOf(locals[CHOOSE i \in DOMAIN locals : g \in GroupsOf(locals[i])], g)).by,
         v  |-> FoldLeft(LAMBDA a, loc : IF g \in GroupsOf(loc) THEN PadAdd(a, EntryOf(loc, g).v) ELSE a,
                         <<>>, locals)]]

\* res: sequence of [g, by, v] as observed (decrypted) at the root.
ResultOk(locals, res) ==
  LET want == Collective(locals)
  IN /\ Len(res) = Cardinality(DOMAIN want)
     /\ {e.g : e \in Range(res)} = DOMAIN want
     /\ \A e \in Range(res) : e.by = want[e.g].by /\ SameVec(e.v, want[e.g].v)
=============================================================================
