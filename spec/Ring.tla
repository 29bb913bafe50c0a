-------------------------------- MODULE Ring --------------------------------
(* The protocols that hand a list of ciphertext rows around a ring of servers:*)
(*   "shuffle": Start at the root and every other server permute and          *)
(*              re-randomise; the root delivers what comes back;              *)
(*   "ddt"    : round 1 adds every server's secret, round 2 multiplies by it  *)
(*              and removes the server's key;                                 *)
(*   "sddt"   : one round, starting after the root and ending at it, in which *)
(*              each server permutes, re-randomises under the keys not yet    *)
(*              removed, adds its secret, multiplies and removes its key.     *)
(* A hop is two FIFO messages (lengths, then data).  Messages may be lost     *)
(* (Faults), in which case nothing may be delivered.                          *)
EXTENDS Group
CONSTANTS N, Rows, Kind, Faults, RandMax, WrongKey, Vals

VARIABLES priv, secret, input, link, data, out, lost, started, perms

vars == <<priv, secret, input, link, data, out, lost, started, perms>>

Servers == 1..N
Ring(i) == (i % N) + 1
FullKey == KeyOf(priv, Servers)

\* servers in the order in which sddt visits them: 2..N, 1
Pos(i) == IF i = 1 THEN N ELSE i - 1
KeyLeft(i) == KeyOf(priv, {j \in Servers : Pos(j) >= Pos(i)})

Init ==
  /\ priv \in {[i \in Servers |-> Md(i + 1)]}
  /\ secret \in {[i \in Servers |-> IF i % 2 = 0 THEN 2 ELSE 3]}
  /\ input \in [1..Rows -> [1..2 -> Vals]]
  /\ link = <<>>
  /\ data = [r \in 1..Rows |-> [c \in 1..2 |-> Enc(FullKey, input[r][c], r + c)]]
  /\ out = <<>>
  /\ lost = FALSE
  /\ started = FALSE
  /\ perms = <<>>

Rnds == 1..RandMax
DoShuffle(h, d, pi, r) == [i \in 1..Rows |-> [c \in 1..2 |-> Rerand(h, d[pi[i]][c], r * (i + c))]]
DoAdd(i, d) == [r \in 1..Rows |-> [c \in 1..2 |-> [d[r][c] EXCEPT !.c = Md(@ + secret[i])]]]
DoTag(i, d) == [r \in 1..Rows |-> [c \in 1..2 |->
                  [k |-> Md(secret[i] * d[r][c].k), c |-> Md(secret[i] * (d[r][c].c - priv[i] * d[r][c].k))]]]

SendTo(d, nxt, rd) == /\ link' = << [kind |-> "len", to |-> nxt], [kind |-> "data", to |-> nxt, rows |-> d, rd |-> rd] >>

Start ==
  /\ ~started
  /\ started' = TRUE
  /\ IF Kind = "shuffle"
       THEN \E pi \in Perms(Rows), r \in Rnds :
              /\ perms' = Append(perms, pi)
              /\ SendTo(DoShuffle(FullKey, data, pi, r), Ring(1), 1)
       ELSE SendTo(data, Ring(1), 1) /\ UNCHANGED perms
  /\ UNCHANGED <<priv, secret, input, data, out, lost>>

Full == started /\ Len(link) = 2 /\ out = <<>>

Deliver(d) == /\ out' = d /\ link' = <<>>

ShuffleHop ==
  /\ Kind = "shuffle"
  /\ Full
  /\ LET m == link[2] i == m.to IN
     IF i = 1 THEN Deliver(m.rows) /\ UNCHANGED perms
     ELSE \E pi \in Perms(Rows), r \in Rnds :
            /\ perms' = Append(perms, pi)
            /\ SendTo(DoShuffle(FullKey, m.rows, pi, r), Ring(i), 1)
            /\ UNCHANGED out
  /\ UNCHANGED <<priv, secret, input, data, lost, started>>

\* the root treats the first message it gets as round 1 although it sent it off untouched: the order of
\* the servers in round 1 is 2..N, 1, and round 2 goes through 2..N, 1 again
DDTHop ==
  /\ Kind = "ddt"
  /\ Full
  /\ LET m == link[2] i == m.to IN
     IF m.rd = 1
       THEN /\ SendTo(DoAdd(i, m.rows), Ring(i), IF i = 1 THEN 2 ELSE 1)
            /\ UNCHANGED out
       ELSE IF i = 1 THEN Deliver(DoTag(i, m.rows))
            ELSE SendTo(DoTag(i, m.rows), Ring(i), 2) /\ UNCHANGED out
  /\ UNCHANGED <<priv, secret, input, data, lost, started, perms>>

SDDTHop ==
  /\ Kind = "sddt"
  /\ Full
  /\ LET m == link[2] i == m.to IN
     \E pi \in Perms(Rows), r \in Rnds :
       LET h == IF WrongKey THEN FullKey ELSE KeyLeft(i)
           d == DoTag(i, DoAdd(i, DoShuffle(h, m.rows, pi, r)))
       IN /\ perms' = Append(perms, pi)
          /\ IF i = 1 THEN Deliver(d) ELSE SendTo(d, Ring(i), 1) /\ UNCHANGED out
  /\ UNCHANGED <<priv, secret, input, data, lost, started>>

Lose == /\ Faults
        /\ link # <<>>
        /\ ~lost
        /\ lost' = TRUE
        /\ \E k \in DOMAIN link : link' = RemoveAt(link, k)
        /\ UNCHANGED <<priv, secret, input, data, out, started, perms>>

Next == Start \/ ShuffleHop \/ DDTHop \/ SDDTHop \/ Lose
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == out # <<>>
Plain == [r \in 1..Rows |-> input[r]]
Opened == [r \in 1..Rows |-> [c \in 1..2 |-> Dec(FullKey, out[r][c])]]
Tag(r, c) == out[r][c].c

\* shuffling: the same bag of rows, each element re-randomised
ShuffleOk == (Done /\ Kind = "shuffle") => SameBag(Opened, Plain)
\* tagging keeps the positions; equal tags exactly for equal plaintexts; no randomness is left over
ExpectedTag(m) ==
  Md(FoldFunctionOnSet(LAMBDA a, b : a * b, 1, secret, Servers) * (m + KeyOf(secret, Servers)))
DDTOk == (Done /\ Kind = "ddt") => \A r \in 1..Rows, c \in 1..2 : Tag(r, c) = ExpectedTag(input[r][c])
SDDTFold(m) == FoldLeft(LAMBDA a, i : Md((a + secret[i]) * secret[i]), m, [k \in 1..N |-> IF k = N THEN 1 ELSE k + 1])
SDDTOk == (Done /\ Kind = "sddt") =>
            SameBag([r \in 1..Rows |-> [c \in 1..2 |-> Tag(r, c)]], [r \in 1..Rows |-> [c \in 1..2 |-> SDDTFold(input[r][c])]])
TagInjective == \A a, b \in Z : /\ (ExpectedTag(a) = ExpectedTag(b) => a = b)
                                /\ (SDDTFold(a) = SDDTFold(b) => a = b)
NoPartial == lost => ~Done
Terminates == (~Faults) => <>Done
=============================================================================
