-------------------------------- MODULE ParLines -------------------------------
(***************************************************************************)
(* The parallel writing of lines, and the parallel search for a character: *)
(*                                                                         *)
(* "write"  every thread adds up the lengths of its lines, one thread adds *)
(*          these up and creates the file, and every thread writes its     *)
(*          lines from its own position on.                                *)
(* "find"   every thread counts the occurrences in its share, one thread   *)
(*          adds these up, and every thread stores what it finds.          *)
(*                                                                         *)
(* Each position is written once and within the file or array, and the     *)
(* result is the lines in order, or the occurrences in order.  The two     *)
(* loops of a writer must give a thread the same lines; that they are one  *)
(* run of lines for each thread, in the order of the threads, is what the  *)
(* positions rest on (LOOPS = "any" shows that nothing less would do).     *)
(***************************************************************************)
EXTENDS Par

VARIABLES src, T, g1, g2, pc, i1, sum, at, out, bad
vars == <<src, T, g1, g2, pc, i1, sum, at, out, bad>>

Kind == EnvStr("KIND", "write")
N == EnvInt("LEN", 4)
Any2 == EnvStr("LOOPS", "static") = "any"

\* What thread k has in the first and second pass
Have(g, k) ==
    IF Kind = "write" THEN SelectSeq([i \in 1..Len(src) |-> i], LAMBDA i : g[i] = k)
    ELSE [i \in 1..(To(Len(src), T, k) - From(Len(src), T, k)) |-> From(Len(src), T, k) + i]

\* Lines are given by their length and consist of their number
Piece(i) == IF Kind = "write" THEN [j \in 1..src[i] |-> i]
            ELSE IF src[i] = 1 THEN <<i - 1>> ELSE << >>
Whole == FoldLeft(LAMBDA a, i : a \o Piece(i), << >>, [i \in 1..Len(src) |-> i])

Init ==
    /\ src \in (IF Kind = "write" THEN Strings(2..4, N) ELSE Strings(0..1, N))
    /\ T \in 1..MaxT
    /\ g1 \in (IF Kind # "write" THEN {<< >>} ELSE IF Any2 THEN [1..Len(src) -> Threads(T)] ELSE Static(Len(src), T))
    /\ g2 = g1
    /\ pc = [k \in Threads(T) |-> "size"]
    /\ i1 = [k \in Threads(T) |-> 1]
    /\ sum = [k \in Threads(T) |-> 0]
    /\ at = << >> /\ out = << >> /\ bad = FALSE

Size1(k) ==
    /\ pc[k] = "size"
    /\ IF i1[k] <= Len(Have(g1, k))
       THEN /\ sum' = [sum EXCEPT ![k] = @ + Len(Piece(Have(g1, k)[i1[k]]))]
            /\ i1' = [i1 EXCEPT ![k] = @ + 1]
            /\ UNCHANGED pc
       ELSE pc' = [pc EXCEPT ![k] = "wait"] /\ UNCHANGED <<sum, i1>>
    /\ UNCHANGED <<src, T, g1, g2, at, out, bad>>

Create ==
    /\ \A k \in Threads(T) : pc[k] = "wait"
    /\ pc' = [k \in Threads(T) |-> "put"]
    /\ i1' = [k \in Threads(T) |-> 1]
    /\ at' = [k \in Threads(T) |-> SumTo(sum, k)]
    /\ out' = [j \in 1..SumTo(sum, T) |-> -1]
    /\ UNCHANGED <<src, T, g1, g2, sum, bad>>

Put1(k) ==
    /\ pc[k] = "put"
    /\ IF i1[k] <= Len(Have(g2, k))
       THEN LET p == Piece(Have(g2, k)[i1[k]])
                a == at[k]
            IN  /\ out' = [j \in 1..Len(out) |-> IF j > a /\ j <= a + Len(p) THEN p[j - a] ELSE out[j]]
                /\ bad' = (bad \/ \E j \in (a + 1)..(a + Len(p)) : j > Len(out) \/ out[j] # -1)
                /\ at' = [at EXCEPT ![k] = @ + Len(p)]
                /\ i1' = [i1 EXCEPT ![k] = @ + 1]
                /\ UNCHANGED pc
       ELSE pc' = [pc EXCEPT ![k] = "done"] /\ UNCHANGED <<out, bad, at, i1>>
    /\ UNCHANGED <<src, T, g1, g2, sum>>

Next ==
    \/ \E k \in Threads(T) : May(k, LAMBDA j : pc[j] = "size") /\ Size1(k)
    \/ Create
    \/ \E k \in Threads(T) : May(k, LAMBDA j : pc[j] = "put") /\ Put1(k)

Spec == Init /\ [][Next]_vars

Done == \A k \in Threads(T) : pc[k] = "done"
Disjoint == ~bad
Right == Done => out = Whole

=============================================================================
