------------------------------ MODULE NoiseOps ------------------------------
(* The list of noise values: the Laplace density is cut into quanta; the value *)
(* at distance k occurs Reps(k) = ceil(density(k)/quantum) times (on each side *)
(* of zero), at least once, nearest first, until n values are reached.         *)
EXTENDS Common

\* Number of values of distance 0..k together, given the repetitions (1-based: reps[k+1]).
Occ(reps, k) == (IF k = 0 THEN 1 ELSE 2) * reps[k + 1]
Upto(reps, k) == FoldLeft(LAMBDA s, i : s + Occ(reps, i - 1), 0, [i \in 1..(k + 1) |-> i])

\* The list itself: the specification's own generator, used for small parameters.
Pairs(k, m) == FoldLeft(LAMBDA s, i : s \o (IF k = 0 THEN <<0>> ELSE <<k, -k>>), <<>>, [i \in 1..m |-> i])
Whole(reps) == FoldLeft(LAMBDA s, i : s \o Pairs(i - 1, reps[i]), <<>>, [i \in 1..Len(reps) |-> i])
NoiseList(n, reps) == SubSeq(Whole(reps), 1, n)

Abs(x) == IF x < 0 THEN -x ELSE x
NumOf(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})

\* What a user relies on.
Outwards(s) == \A i, j \in DOMAIN s : i < j => Abs(s[i]) <= Abs(s[j])
Symmetric(s) == \A x \in Range(s) : x # 0 => Abs(NumOf(s, x) - NumOf(s, -x)) <= 1
\* between the complete distances, a more probable (nearer) value occurs at least as often
Decreasing(s) == \A x, y \in Range(s) : 0 <= x /\ x < y => NumOf(s, x) >= NumOf(s, y)
NoGap(s) == \A x \in Range(s) : \A y \in 0..Abs(x) : y \in Range(s)
=============================================================================
