---------------------------------- MODULE Par ----------------------------------
(***************************************************************************)
(* What the parallel algorithms have in common: a team of T threads, how   *)
(* bytes, rows and loop iterations are divided among it, and what a phase  *)
(* of a team is.  The models ParText, ParRows, ParLines and ParDedup use   *)
(* it; each has every interleaving (ORDER = "all") or one (ORDER = "one")  *)
(* of the threads' steps.                                                  *)
(***************************************************************************)
EXTENDS Prims, Ops, IOUtils

EnvInt(s, d) == IF s \in DOMAIN IOEnv THEN atoi(IOEnv[s]) ELSE d
EnvStr(s, d) == IF s \in DOMAIN IOEnv THEN IOEnv[s] ELSE d

MaxT == EnvInt("TEAM", 3)
InOrder == EnvStr("ORDER", "one") = "one"
Printing == EnvStr("PRINT", "no") = "yes"

Threads(T) == 0..(T - 1)

\* Thread k's part of S positions
From(S, T, k) == (k * S) \div T
To(S, T, k) == ((k + 1) * S) \div T

\* The sum of the values of the threads before k
SumTo(f, k) == FoldLeft(LAMBDA a, j : a + f[j], 0, [i \in 1..k |-> i - 1])

\* Thread k may step: in order means that those before it cannot
May(k, En(_)) == En(k) /\ (InOrder => \A j \in 0..(k - 1) : ~En(j))

\* A static loop without a chunk: at most one run of iterations for each
\* thread, in the order of the threads
Static(m, T) ==
    {g \in [1..m -> Threads(T)] : \A i \in 1..(m - 1) : g[i] <= g[i+1]}

Hex == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
HexText(s) == FoldLeft(LAMBDA a, b : a \o Hex[(b \div 16) + 1] \o Hex[(b % 16) + 1], "", s)
Decimals(s) == FoldLeft(LAMBDA a, b : a \o " " \o ToString(b), "", s)

Strings(A, n) == UNION {[1..k -> A] : k \in 0..n}

=============================================================================
