------------------------------- MODULE Group --------------------------------
(* ElGamal over the exponents modulo a small prime P: a point xB is          *)
(* represented by x.  A ciphertext of m under key h is [k |-> r, c |-> m + r*h]. *)
EXTENDS Common
CONSTANT P
Z == 0..(P - 1)
Md(x) == ((x % P) + P) % P
Enc(h, m, r) == [k |-> Md(r), c |-> Md(m + r * h)]
Dec(x, ct) == Md(ct.c - x * ct.k)
CtAdd(a, b) == [k |-> Md(a.k + b.k), c |-> Md(a.c + b.c)]
Rerand(h, ct, r) == [k |-> Md(ct.k + r), c |-> Md(ct.c + r * h)]
KeyOf(priv, S) == Md(FoldFunctionOnSet(LAMBDA a, b : a + b, 0, priv, S))
Perms(n) == {f \in [1..n -> 1..n] : \A i, j \in 1..n : f[i] = f[j] => i = j}
=============================================================================
