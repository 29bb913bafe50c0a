------------------------------ MODULE SurveyOps ------------------------------
(* What a survey must answer: the query evaluated over the plaintext data.     *)
(* Query: [ns, ng, where (values), count, pred]; pred is a tree over variables  *)
(* 0,1,2,...: variable 2i is the i-th WHERE value of the query, 2i+1 the        *)
(* response's attribute (i from 0), as the predicate language numbers them.     *)
(* Attributes are given by their position in the query, whatever their names.   *)
(* A response is [g, w, s, miss]; a data provider [at, rep, resp].              *)
EXTENDS Common

Var(q, r, v) == IF v % 2 = 0 THEN q.where[(v \div 2) + 1] ELSE r.w[(v \div 2) + 1]

RECURSIVE Holds(_, _, _)
Holds(p, q, r) ==
  CASE p.op = "true"  -> TRUE
    [] p.op = "eq"  -> Var(q, r, p.a) = Var(q, r, p.b)
    [] p.op = "ne"  -> Var(q, r, p.a) # Var(q, r, p.b)
    [] p.op = "and" -> Holds(p.l, q, r) /\ Holds(p.r, q, r)
    [] p.op = "or"  -> Holds(p.l, q, r) \/ Holds(p.r, q, r)
    [] p.op = "not" -> ~Holds(p.l, q, r)

\* Without WHERE attributes, or with an empty predicate, everything is kept.
Kept(q, r) == Len(q.where) = 0 \/ Holds(q.ast, q, r)

\* All responses of all data providers, repeated as the provider asked for.
Flat(ss) == FoldLeft(LAMBDA x, s : x \o s, <<>>, ss)
Times(x, k) == [i \in 1..k |-> x]
Responses(q) == Flat([d \in DOMAIN q.dps |-> Flat([i \in DOMAIN q.dps[d].resp |-> Times(q.dps[d].resp[i], q.dps[d].rep)])])

\* The summands of a response: missing attributes count as zero; the count attribute as one.
Summands(q, r) == LET s == [i \in 1..q.ns |-> IF i \in Range(r.miss) THEN 0 ELSE r.s[i]]
                      at == IF Has(q, "cpos") THEN q.cpos ELSE q.ns       \* how many attributes the query names before the count
                  IN IF q.count THEN SubSeq(s, 1, at) \o <<1>> \o SubSeq(s, at + 1, q.ns) ELSE s
AddVec(a, b) == [i \in DOMAIN b |-> (IF i <= Len(a) THEN a[i] ELSE 0) + b[i]]

Answer(q) ==
  LET kept == SelectSeq(Responses(q), LAMBDA r : Kept(q, r))
      groups == {r.g : r \in Range(kept)}
  IN [g \in groups |-> FoldLeft(LAMBDA a, r : IF r.g = g THEN AddVec(a, Summands(q, r)) ELSE a, <<>>, kept)]

AnswerOk(q, rows) ==
  LET want == Answer(q)
  IN /\ Len(rows) = Cardinality(DOMAIN want)
     /\ {r.g : r \in Range(rows)} = DOMAIN want
     /\ \A r \in Range(rows) : r.a = want[r.g]
\* With noise: one value of the noise list, the same for the whole release, is added to every aggregate.
Noises(q, rows) ==
  LET want == Answer(q)
  IN UNION {{r.a[i] - want[r.g][i] : i \in DOMAIN want[r.g]} : r \in Range(rows)}
NoisyOk(q, rows, max) ==
  LET want == Answer(q)
  IN /\ Len(rows) = Cardinality(DOMAIN want)
     /\ {r.g : r \in Range(rows)} = DOMAIN want
     /\ \A r \in Range(rows) : Len(r.a) = Len(want[r.g])
     /\ Cardinality(Noises(q, rows)) <= 1
     /\ \A v \in Noises(q, rows) : v <= max /\ -v <= max
=============================================================================
