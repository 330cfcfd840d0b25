--------------------------------- MODULE MCHist --------------------------------
(***************************************************************************)
(* All histories of up to DEPTH operations on two coos: the operations'    *)
(* sequential meaning (After) is checked to satisfy Step, and any outcome  *)
(* that also changes the other object is checked to be refused by it.      *)
(* Complete histories are printed, to be replayed on the implementation.   *)
(***************************************************************************)
EXTENDS Pigo, IOUtils

VARIABLES O, hist, e, O0
vars == <<O, hist, e, O0>>

Depth == atoi(IOEnv.DEPTH)
\* printed on one line
Joined(h) == FoldLeft(LAMBDA a, b : a \o b \o ";", "H;", h)
Hs == {"A", "B"}
Empty == [x \in {} |-> None]
Ty == [L |-> 4, Ls |-> FALSE, O |-> 4, W |-> "n", Wb |-> 0, sym |-> FALSE, ut |-> FALSE, sl |-> FALSE]

First2 == Coo(3, 3, 3, <<<<0, 1>>, <<2, 0>>>>)

Init == O = Empty /\ hist = << >> /\ e = [op |-> "none"] /\ O0 = Empty

Do(rec, O2, line) ==
    /\ e' = rec
    /\ O0' = O
    /\ O' = O2
    /\ hist' = Append(hist, line)
    /\ Len(hist') = Depth => PrintT(Joined(hist'))

Mk(h) == /\ h \notin DOMAIN O
         /\ (h = "B" => "A" \in DOMAIN O)              \* the first is A
         /\ Do([op |-> "mk", h |-> h, kind |-> "coo", ty |-> Ty, err |-> "",
                a |-> <<3, 3, 3, 2, 0, 1, 2, 0>>],
               Put(O, h, First2), "mk " \o h \o " coo 0 0 3 3 3 2 0 1 2 0")
Copy(d, s) == /\ s \in DOMAIN O
              /\ Do([op |-> "copy", h |-> d, src |-> s, err |-> ""],
                    Put(O, d, O[s]), "copy " \o d \o " " \o s)
Asg(d, s) == /\ s \in DOMAIN O /\ d \in DOMAIN O
             /\ Do([op |-> "asg", h |-> d, src |-> s, err |-> ""],
                   Put(O, d, O[s]), "asg " \o d \o " " \o s)
Tr(h) == /\ h \in DOMAIN O
         /\ Do([op |-> "tr", h |-> h, err |-> ""], Put(O, h, Transpose(O[h])), "tr " \o h)
Poke(h) == /\ h \in DOMAIN O /\ O[h].m > 0
           /\ Do([op |-> "poke", h |-> h, i |-> 0, fld |-> 1, val |-> 2, err |-> ""],
                 Put(O, h, [O[h] EXCEPT !.e[1][2] = 2]), "poke " \o h \o " 0 1 2")
Free(h) == /\ h \in DOMAIN O
           /\ Do([op |-> "free", h |-> h, err |-> ""],
                 Put(O, h, [O[h] EXCEPT !.m = 0, !.e = << >>]), "free " \o h)
Drop(h) == /\ h \in DOMAIN O
           /\ Do([op |-> "drop", h |-> h, err |-> ""], Without(O, {h}), "drop " \o h)
Set(h) == /\ h \in DOMAIN O
          /\ Do([op |-> "set", h |-> h, fld |-> "nr", val |-> 7, err |-> ""],
                Put(O, h, [O[h] EXCEPT !.nr = 7]), "set " \o h \o " nr 7")

Next ==
    /\ Len(hist) < Depth
    /\ \E h \in Hs : \/ Mk(h) \/ Tr(h) \/ Poke(h) \/ Free(h) \/ Drop(h) \/ Set(h)
                     \/ \E s \in Hs : (s # h /\ Copy(h, s)) \/ Asg(h, s)

Spec == Init /\ [][Next]_vars

Ev == e @@ [objs |-> << >>]
Allowed == e.op # "none" => Step("int", e, O0, Empty, Empty, O, Empty, Empty)

\* An outcome that differs in an object the operation does not name is refused
Frame == e.op # "none" =>
    \A h \in DOMAIN O0 \ {e.h} :
        h \in DOMAIN O =>
        ~Step("int", e, O0, Empty, Empty, [O EXCEPT ![h].n = O[h].n + 1], Empty, Empty)

Involution == \A h \in DOMAIN O : Transpose(Transpose(O[h])) = O[h]

=============================================================================
