-------------------------------- MODULE MCCanon --------------------------------
(***************************************************************************)
(* The pipelines on every list of up to DEPTH entries over few labels: a   *)
(* list is built entry by entry; in every state the laws of the canonical  *)
(* form hold of what the composed operations give.                         *)
(***************************************************************************)
EXTENDS Examples, IOUtils

Depth == atoi(IOEnv.DEPTH)
Labels == 0..2

VARIABLE E

Init == E = << >>
Next == Len(E) < Depth /\ \E x, y \in Labels : E' = Append(E, <<x, y>>)
Spec == Init /\ [][Next]_E

Nm == <<97>>
Cl(L) == LET r == Clean(Nm, Text(L)) IN IF r.st = "ok" THEN r.e ELSE << >>
Sy(L) == LET r == Symmetrized(Nm, Text(L)) IN IF r.st = "ok" THEN r.e ELSE << >>

SwapAt(L, j) == [q \in 1..Len(L) |-> IF q = j THEN L[j+1] ELSE IF q = j + 1 THEN L[j] ELSE L[q]]

Laws ==
    E # << >> =>
    /\ Cl(E) = Canonical(E)
    /\ Sy(E) = BothWays(E)
    /\ Cl(Cl(E)) = Cl(E)                                        \* its own output
    /\ \A j \in 1..(Len(E) - 1) : Cl(SwapAt(E, j)) = Cl(E) /\ Sy(SwapAt(E, j)) = Sy(E)
    /\ \A j \in 1..Len(E) : /\ Cl(E \o <<E[j]>>) = Cl(E)
                            /\ Cl(E \o <<Flip(E[j])>>) = Cl(E)
                            /\ Cl([E EXCEPT ![j] = Flip(E[j])]) = Cl(E)
    /\ Cl(Sy(E)) = Cl(E)
    /\ \A s, d \in Labels :
         LET f == Find(Nm, Text(E), s, d)
             n == 1 + Max({E[j][1] : j \in 1..Len(E)} \cup {E[j][2] : j \in 1..Len(E)})
         IN  IF s >= n \/ d >= n THEN f = Fails
             ELSE f.found <=> (\E j \in 1..Len(E) : E[j] = <<s, d>>)
=============================================================================
