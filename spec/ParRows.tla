-------------------------------- MODULE ParRows --------------------------------
(***************************************************************************)
(* The parallel conversion of coordinates to compressed rows: degrees are  *)
(* counted with atomic increments, row starts are sums over shares of the  *)
(* rows, and each entry takes the next place of its row with an atomic     *)
(* capture and is stored there in a step of its own.                       *)
(*                                                                         *)
(* For every small list of entries, team, division of the entries among    *)
(* the threads and interleaving of the steps: no place is stored twice or  *)
(* lies outside, labels without a row are noticed, and the result is a     *)
(* compressed form of the entries (Ops).  The order within a row is left   *)
(* open: this is where results depend on the schedule.                     *)
(*                                                                         *)
(* With HIST = "yes" the order of the atomic steps is kept and printed, to *)
(* be imposed on the implementation.                                       *)
(***************************************************************************)
EXTENDS Par

VARIABLES x, T, asg, pc, todo, deg, rem, off, place, out, invalid, bad, hist
vars == <<x, T, asg, pc, todo, deg, rem, off, place, out, invalid, bad, hist>>

R == EnvInt("ROWS", 2)
N == EnvInt("LEN", 3)
Hist == EnvStr("HIST", "no") = "yes"

A == [k |-> "coo", n |-> R, nr |-> R, nc |-> Len(x) + 1, m |-> Len(x),
      e |-> [i \in 1..Len(x) |-> <<x[i], i>>]]

\* The loops' iterations are divided as by a static schedule or, without a
\* history, in any way
Mine(g, k) == SelectSeq([i \in 1..Len(x) |-> i], LAMBDA i : g[i] = k)
BlockOf(n, T2, i) ==        \* the thread that has iteration i of n
    CHOOSE k \in 0..(T2 - 1) :
        LET q == n \div T2
            r == n % T2
            lo == k * q + (IF k < r THEN k ELSE r)
        IN  lo < i /\ i <= lo + q + (IF k < r THEN 1 ELSE 0)

Init ==
    /\ x \in (IF Hist THEN UNION {[1..n -> 0..(R - 1)] : n \in {N}} ELSE Strings(0..R, N))
    /\ T \in (IF Hist THEN {MaxT} ELSE 1..MaxT)
    /\ asg \in (IF Hist THEN {[i \in 1..Len(x) |-> BlockOf(Len(x), T, i)]}
                ELSE [1..Len(x) -> Threads(T)])
    /\ pc = [k \in Threads(T) |-> "count"]
    /\ todo = [k \in Threads(T) |-> Mine(asg, k)]
    /\ deg = [v \in 0..(R - 1) |-> 0]
    /\ rem = << >> /\ off = << >>
    /\ place = [k \in Threads(T) |-> 0]
    /\ out = [i \in 1..Len(x) |-> 0]
    /\ invalid = [k \in Threads(T) |-> 0]
    /\ bad = FALSE /\ hist = << >>

Note(k) == hist' = IF Hist THEN Append(hist, k) ELSE hist

Count1(k) ==
    /\ pc[k] = "count" /\ todo[k] # << >>
    /\ LET v == x[Head(todo[k])]
       IN  deg' = IF v < R THEN [deg EXCEPT ![v] = @ + 1] ELSE deg
    /\ todo' = [todo EXCEPT ![k] = Tail(@)]
    /\ Note(k)
    /\ UNCHANGED <<x, T, asg, pc, rem, off, place, out, invalid, bad>>

\* All have counted.  Each thread sums the degrees of its rows, one sums
\* these, and each sets the starts of its rows.
ShareSum(k) == FoldLeft(LAMBDA a, v : a + deg[v], 0,
                   [i \in 1..(To(R, T, k) - From(R, T, k)) |-> From(R, T, k) + i - 1])
Before(k) == FoldLeft(LAMBDA a, j : a + ShareSum(j), 0, [i \in 1..k |-> i - 1])
OwnerOf(v) == CHOOSE k \in Threads(T) : From(R, T, k) <= v /\ v < To(R, T, k)
StartOf(v) ==
    LET k == OwnerOf(v)
    IN  Before(k) + FoldLeft(LAMBDA a, u : a + deg[u], 0,
                        [i \in 1..(v - From(R, T, k)) |-> From(R, T, k) + i - 1])
Counted == \A k \in Threads(T) : pc[k] = "count" /\ todo[k] = << >>
Starts ==
    /\ Counted
    /\ off' = [v \in 0..R |-> IF v = R THEN Len(x) ELSE StartOf(v)]
    /\ rem' = deg
    /\ pc' = [k \in Threads(T) |-> "take"]
    /\ todo' = [k \in Threads(T) |-> Mine(asg, k)]
    /\ UNCHANGED <<x, T, asg, deg, place, out, invalid, bad, hist>>

\* The atomic capture
Take1(k) ==
    /\ pc[k] = "take" /\ todo[k] # << >>
    /\ LET v == x[Head(todo[k])]
       IN  IF v >= R
           THEN /\ invalid' = [invalid EXCEPT ![k] = @ + 1]
                /\ todo' = [todo EXCEPT ![k] = Tail(@)]
                /\ UNCHANGED <<pc, rem, place, hist>>
           ELSE /\ place' = [place EXCEPT ![k] = off[v + 1] - rem[v]]
                /\ rem' = [rem EXCEPT ![v] = @ - 1]
                /\ pc' = [pc EXCEPT ![k] = "put"]
                /\ Note(k)
                /\ UNCHANGED <<invalid, todo>>
    /\ UNCHANGED <<x, T, asg, deg, off, out, bad>>

Put1(k) ==
    /\ pc[k] = "put"
    /\ LET p == place[k] + 1
       IN  IF p \in 1..Len(out)
           THEN /\ out' = [out EXCEPT ![p] = Head(todo[k])]
                /\ bad' = (bad \/ out[p] # 0)
           ELSE out' = out /\ bad' = TRUE
    /\ pc' = [pc EXCEPT ![k] = "take"]
    /\ todo' = [todo EXCEPT ![k] = Tail(@)]
    /\ UNCHANGED <<x, T, asg, deg, rem, off, place, invalid, hist>>

\* (with a history, storing follows at once)
Next ==
    \/ \E k \in Threads(T) : pc[k] = "put" /\ Put1(k)
    \/ /\ Hist => \A k \in Threads(T) : pc[k] # "put"
       /\ \E k \in Threads(T) : Count1(k) \/ Take1(k)
    \/ Starts

Spec == Init /\ [][Next]_vars

Done == \A k \in Threads(T) : pc[k] = "take" /\ todo[k] = << >>

Disjoint == ~bad

Invalid == SumTo(invalid, T)
Result == Csr(R, R, Len(x) + 1, [i \in 1..(R + 1) |-> off[i - 1]], [i \in 1..Len(x) |-> <<out[i]>>])
Right == Done =>
    IF \A i \in 1..Len(x) : x[i] < R THEN Invalid = 0 /\ IsCsrOf(Result, A)
    ELSE Invalid > 0

Printed == Done /\ Hist /\ Printing =>
    PrintT("T;" \o Decimals(x) \o ";" \o FoldLeft(LAMBDA a, b : a \o ToString(b), "", hist) \o ";")

=============================================================================
