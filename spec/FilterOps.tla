------------------------------ MODULE FilterOps ------------------------------
(* The predicate language over the tags of WHERE attributes: variable 2i is the *)
(* i-th attribute of the query, 2i+1 that of the response. A predicate           *)
(* evaluates to "T", "F", a value that is no truth value ("V") or to an error    *)
(* ("E").                                                                        *)
EXTENDS Common

Defined(q, r, v) == IF v % 2 = 0 THEN (v \div 2) < Len(q) ELSE (v \div 2) < Len(r)
Var(q, r, v) == IF v % 2 = 0 THEN q[(v \div 2) + 1] ELSE r[(v \div 2) + 1]
Bool(b) == IF b THEN "T" ELSE "F"
Truth(x) == x \in {"T", "F"}
AllDefined(q, r, vs) == \A v \in Range(vs) : Defined(q, r, v)

\* lazy: the right operand of a decided && or || is not looked at; otherwise both must be truth values
RECURSIVE Eval(_, _, _, _)
Eval(p, q, r, lazy) ==
  CASE p.op = "true"  -> "T"
    [] p.op = "false" -> "F"
    [] p.op = "bad"   -> "E"
    [] p.op = "val"   -> "V"
    [] p.op = "var"   -> IF Defined(q, r, p.a) THEN "V" ELSE "E"
    [] p.op = "eq"    -> IF AllDefined(q, r, <<p.a, p.b>>) THEN Bool(Var(q, r, p.a) = Var(q, r, p.b)) ELSE "E"
    [] p.op = "ne"    -> IF AllDefined(q, r, <<p.a, p.b>>) THEN Bool(Var(q, r, p.a) # Var(q, r, p.b)) ELSE "E"
    [] p.op = "in"    -> IF AllDefined(q, r, <<p.a>> \o p.set) THEN Bool(\E b \in Range(p.set) : Var(q, r, p.a) = Var(q, r, b)) ELSE "E"
    [] p.op = "not"   -> LET x == Eval(p.l, q, r, lazy) IN IF x = "T" THEN "F" ELSE IF x = "F" THEN "T" ELSE "E"
    [] p.op \in {"and", "or"} ->
         LET x == Eval(p.l, q, r, lazy)
             y == Eval(p.r, q, r, lazy)
             d == IF p.op = "and" THEN "F" ELSE "T"        \* the value that decides
         IN IF lazy /\ x = d THEN d
            ELSE IF ~Truth(x) \/ ~Truth(y) THEN "E"
            ELSE IF x = d \/ y = d THEN d ELSE x
    [] p.op = "if"    -> LET c == Eval(p.c, q, r, lazy)
                             x == Eval(p.l, q, r, lazy)
                             y == Eval(p.r, q, r, lazy)
                         IN IF ~Truth(c) THEN "E"
                            ELSE IF lazy THEN (IF c = "T" THEN x ELSE y)
                            ELSE IF x = "E" \/ y = "E" THEN "E" ELSE IF c = "T" THEN x ELSE y

\* A row that must be kept, one that may be kept (the predicate's truth depends on laziness), the others must go.
Must(p, q, r) == Eval(p, q, r, FALSE) = "T"
May(p, q, r) == Eval(p, q, r, TRUE) = "T"
Sound(p, q, r) == Truth(Eval(p, q, r, FALSE))

\* kept: the positions kept, in the order delivered
Ascending(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
FilterOk(p, q, rows, kept) ==
  /\ Ascending(kept)
  /\ \A i \in Range(kept) : i \in DOMAIN rows /\ May(p, q, rows[i])
  /\ \/ \A i \in DOMAIN rows : Must(p, q, rows[i]) => i \in Range(kept)
     \/ kept = <<>> /\ \E i \in DOMAIN rows : ~Sound(p, q, rows[i])
=============================================================================
