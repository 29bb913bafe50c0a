------------------------------- MODULE Sigma --------------------------------
(* The proofs of knowledge of unlynx over the integers modulo a small prime P    *)
(* (a point is its discrete logarithm). A statement is TRUE when it is what the   *)
(* operation produces; a prover may answer a challenge c after the commitment V   *)
(* when some responses satisfy the verification equations. The proof is sound     *)
(* when, for a false statement, no commitment lets more than one challenge be     *)
(* answered, provided the challenge depends on the whole statement; when it does  *)
(* not (Bound = FALSE), the statement may be chosen after the challenge.          *)
EXTENDS Common
CONSTANTS P, Kind, Bound, Extra
ASSUME Kind \in {"ks", "ddt", "add", "addrm"}
VARIABLES st, V
Z == 0..(P - 1)
Mod(x) == x % P

Fields == CASE Kind = "ks" -> {"K", "v", "s2", "rb", "Q"}
            [] Kind = "ddt" -> {"aK", "aC", "bK", "bC", "K", "S", "cs"}
            [] Kind = "add" -> {"c1", "c2", "r"}
            [] Kind = "addrm" -> {"bK", "bC", "aK", "aC", "K"}
\* what the operation of a server with a (any) secret really produces
True(s) ==
  CASE Kind = "ks" -> s.s2 = Mod(s.K * s.rb + s.v * s.Q)
    [] Kind = "ddt" -> /\ s.aK = Mod(s.S * s.bK)
                       /\ s.aC = Mod(s.S * (s.bC + P * P - s.K * s.bK))
    [] Kind = "add" -> s.r = Mod(s.c1 + s.c2)
    [] Kind = "addrm" -> /\ s.aK = s.bK
                         /\ s.aC = Mod(s.bC + s.K * s.bK)
\* equations  left = sum over secrets of secret * base
Eqs(s) ==
  CASE Kind = "ks" -> << <<s.v, <<0, 1>>>>, <<s.K, <<1, 0>>>>, <<s.s2, <<s.rb, s.Q>>>> >>      \* secrets k, v
    [] Kind = "ddt" -> << <<s.aK, <<0, s.bK>>>>, <<s.K, <<1, 0>>>>, <<s.S, <<0, 1>>>>, <<s.aC, <<s.cs, s.bC>>>> >>   \* k, s
    [] Kind = "add" -> << <<s.c2, <<0, 1>>>> >>
    [] Kind = "addrm" -> << <<s.K, <<1, 0>>>>, <<Mod(s.aC + P - s.bC), <<s.bK, 0>>>> >>
\* checked in addition, without secrets
Plain(s) ==
  CASE Kind = "ddt" -> Extra => s.cs = Mod(P - s.aK)
    [] Kind = "addrm" -> Extra => s.aK = s.bK
    [] Kind = "add" -> Extra => s.r = Mod(s.c1 + s.c2)
    [] OTHER -> TRUE
Answer(s, w, c) == \E r \in Z \X Z : \A i \in DOMAIN Eqs(s) :
                      w[i] = Mod(c * Eqs(s)[i][1] + r[1] * Eqs(s)[i][2][1] + r[2] * Eqs(s)[i][2][2])
Commits == [1..(CASE Kind = "ks" -> 3 [] Kind = "ddt" -> 4 [] Kind = "add" -> 1 [] OTHER -> 2) -> Z]
Init == st \in [Fields -> Z] /\ V \in Commits
Next == FALSE /\ UNCHANGED <<st, V>>
Spec == Init /\ [][Next]_<<st, V>>
Answerable == {c \in Z : Answer(st, V, c)}
Complete == True(st) => (Plain(st) \/ Kind = "ddt")
\* every challenge of a true statement can be answered after an honest commitment (of the zero secrets)
HonestAll == (True(st) /\ Plain(st)) => \A c \in Z : Answer(st, [i \in DOMAIN V |-> 0], c)
Sound == (~True(st) /\ Plain(st)) => Cardinality(Answerable) <= (IF Bound THEN 1 ELSE 0)
=============================================================================
