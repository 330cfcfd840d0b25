-------------------------------- MODULE ParText --------------------------------
(***************************************************************************)
(* The parallel loading of an edge list or adjacency file, as an algorithm *)
(* on bytes: every thread takes a share of the bytes, moves both ends of   *)
(* it off the line they are in, counts its entries, and, when the team has *)
(* added up the counts, stores its entries at its own positions.           *)
(*                                                                         *)
(* For every small text and team: all positions are stored once and        *)
(* within the array, and the result is what the text means (Formats),      *)
(* which does not mention shares, threads or cursors.                      *)
(*                                                                         *)
(* KIND is "el" (with the preprocessing options FLAGS) or "graph".         *)
(***************************************************************************)
EXTENDS Par

VARIABLES t, T, pc, pos, cnt, nls, zero, out, orow, bad
vars == <<t, T, pc, pos, cnt, nls, zero, out, orow, bad>>

Kind == EnvStr("KIND", "el")
Flags == EnvInt("FLAGS", 0)
N == EnvInt("LEN", 4)
Ty == [L |-> 4, Ls |-> FALSE, O |-> 4, W |-> "n", Wb |-> 0, sym |-> Flags % 2 = 1,
       ut |-> (Flags \div 2) % 2 = 1, sl |-> (Flags \div 4) % 2 = 1]

\* Edge lists: every string over a few characters, and every sequence of a
\* few whole pieces
Pieces == {<<49, 32, 50, 10>>, <<51, 9, 49, 13, 10>>, <<35, 32, 55, 10>>, <<50, 32, 50, 35, 49, 10>>,
           <<10>>, <<32, 49, 50, 32, 48>>}
Flat(s) == FoldLeft(LAMBDA a, b : a \o b, << >>, s)
Universe ==
    IF Kind = "el" THEN Strings({49, 50, SP, NL, 35}, N)
    ELSE IF Kind = "pieces" THEN {Flat(s) : s \in Strings(Pieces, N)}
    ELSE {<<48 + n, SP, 48 + m, NL>> \o s : n \in 0..2, m \in 0..2, s \in Strings({48, 49, SP, NL, 35}, N)}

IsGraph == Kind = "graph"

\* Where reading begins: behind the header of an adjacency file
Start(txt) ==
    LET E == Len(txt)
        h == Outside(txt, E, 0, IsDig)
    IN  IF IsGraph THEN NextOrNl(txt, E, First(txt, E, NextInt(txt, E, h), IsNL)) ELSE 0

\* One end of a share, at byte p
Align(txt, p) == LET E == Len(txt) IN NextInt(txt, E, First(txt, E, p, IsNL))

ShareFrom(txt, n, k) ==
    LET B == Start(txt)
    IN  IF k > 0 THEN Align(txt, B + From(Len(txt) - B, n, k))
        ELSE IF IsGraph THEN B ELSE Outside(txt, Len(txt), 0, IsDig)
ShareTo(txt, n, k) == LET B == Start(txt) IN Align(txt, B + To(Len(txt) - B, n, k))

\* An entry of an edge list that is read from position p: where reading goes
\* on, and the entries to store (nothing if the second number is missing)
Entry(txt, E, p) ==
    LET q == NextInt(txt, E, p)
        x == Num("int", txt, p + 1, NonInt(txt, E, p))
        y == Num("int", txt, q + 1, NonInt(txt, E, q))
    IN  IF q = E THEN [next |-> E, e |-> << >>]
        ELSE [next |-> NextInt(txt, E, First(txt, E, NonInt(txt, E, q), IsNL)),
              e |-> Preprocess("int", Ty, <<<<x, y>>>>)]

AtRowEnd(txt, E, p) == p = E \/ C(txt, p) = NL \/ IsCmt(C(txt, p))
AtZero(txt, E, p) == p < E /\ C(txt, p) = 48 /\ (p + 1 = E \/ ~IsDig(C(txt, p + 1)))

Init ==
    /\ t \in Universe
    /\ T \in 1..MaxT
    /\ pc = [k \in Threads(T) |-> "count"]
    /\ pos = [k \in Threads(T) |-> ShareFrom(t, T, k)]
    /\ cnt = [k \in Threads(T) |-> 0]
    /\ nls = [k \in Threads(T) |-> 0]
    /\ zero = FALSE
    /\ out = << >> /\ orow = << >> /\ bad = FALSE

End(k) == ShareTo(t, T, k)

\* Each thread counts, one entry in each step
InRow(k, p) == p < End(k) /\ ~AtRowEnd(t, End(k), p)
Count1(k) ==
    /\ pc[k] = "count"
    /\ IF pos[k] < End(k)
       THEN IF IsGraph
            THEN LET p == pos[k]
                     row == InRow(k, p)
                     q == NextOrNl(t, End(k), p)
                 IN  /\ cnt' = [cnt EXCEPT ![k] = @ + (IF row THEN 1 ELSE 0)]
                     \* the last row may lack its newline
                     /\ nls' = [nls EXCEPT ![k] = @ + (IF ~row THEN 1 ELSE 0)
                                    + (IF row /\ q = End(k) /\ q = Len(t) THEN 1 ELSE 0)]
                     /\ zero' = (zero \/ AtZero(t, End(k), p))
                     /\ pos' = [pos EXCEPT ![k] = q]
                     /\ UNCHANGED pc
            ELSE LET x == Entry(t, End(k), pos[k])
                 IN  /\ cnt' = [cnt EXCEPT ![k] = @ + Len(x.e)]
                     /\ pos' = [pos EXCEPT ![k] = x.next]
                     /\ UNCHANGED <<pc, nls, zero>>
       ELSE /\ pc' = [pc EXCEPT ![k] = "wait"]
            /\ UNCHANGED <<pos, cnt, nls, zero>>
    /\ UNCHANGED <<t, T, out, orow, bad>>

\* All have counted: one thread adds up and allocates
Undef == <<-1>>
M == SumTo(cnt, T)
Rows == (IF zero THEN 0 ELSE 1) + SumTo(nls, T)
Sum ==
    /\ \A k \in Threads(T) : pc[k] = "wait"
    /\ pc' = [k \in Threads(T) |-> "store"]
    /\ pos' = [k \in Threads(T) |-> ShareFrom(t, T, k)]
    /\ cnt' = [k \in Threads(T) |-> SumTo(cnt, k)]
    /\ nls' = [k \in Threads(T) |-> (IF zero THEN 0 ELSE 1) + SumTo(nls, k)]
    /\ out' = [i \in 1..M |-> Undef]
    /\ orow' = IF IsGraph
               THEN [i \in 1..(Rows + 1) |-> IF i = 1 \/ (i = 2 /\ ~zero) THEN 0
                                             ELSE IF i = Rows + 1 THEN M ELSE -1]
               ELSE << >>
    /\ UNCHANGED <<t, T, zero, bad>>

Store(A, at, E) ==
    [i \in DOMAIN A |-> IF i > at /\ i <= at + Len(E) THEN E[i - at] ELSE A[i]]

Store1(k) ==
    /\ pc[k] = "store"
    /\ IF pos[k] < End(k) /\ ~(IsGraph /\ nls[k] >= Len(orow) - 1)
       THEN LET p == pos[k]
                x == Entry(t, End(k), p)
                E == IF ~IsGraph THEN x.e
                     ELSE IF InRow(k, p) THEN <<<<Num("int", t, p + 1, NonInt(t, End(k), p))>>>>
                     ELSE << >>
                ends == IsGraph /\ ~InRow(k, p)
            IN  /\ out' = Store(out, cnt[k], E)
                /\ cnt' = [cnt EXCEPT ![k] = @ + Len(E)]
                /\ orow' = IF ends THEN [orow EXCEPT ![nls[k] + 2] = cnt[k]] ELSE orow
                /\ nls' = IF ends THEN [nls EXCEPT ![k] = @ + 1] ELSE nls
                /\ bad' = (bad \/ \E i \in 1..Len(E) : cnt[k] + i > Len(out) \/ out[cnt[k] + i] # Undef)
                /\ pos' = [pos EXCEPT ![k] = IF IsGraph THEN NextOrNl(t, End(k), p) ELSE x.next]
                /\ UNCHANGED pc
       ELSE /\ pc' = [pc EXCEPT ![k] = "done"]
            /\ UNCHANGED <<out, orow, cnt, nls, bad, pos>>
    /\ UNCHANGED <<t, T, zero>>

Shown == Printing /\ T = 1 => PrintT("T;" \o HexText(t) \o ";")

Next ==
    \/ \E k \in Threads(T) : May(k, LAMBDA j : pc[j] = "count") /\ Count1(k)
    \/ Sum
    \/ \E k \in Threads(T) : May(k, LAMBDA j : pc[j] = "store") /\ Store1(k)

Spec == Init /\ [][Next]_vars

Done == \A k \in Threads(T) : pc[k] = "done"

\* No position is stored twice or lies outside, whatever the text
Disjoint == ~bad

\* At the end the loaded object is what the text means
Result ==
    IF ~IsGraph THEN Ok(CooOfEntries("int", out))
    ELSE LET n == Num("int", t, 1, 1)
             m == Num("int", t, 3, 3)
             base == IF zero THEN 0 ELSE 1
             mx == IF out = << >> THEN 0 ELSE Max({out[i][1] : i \in 1..Len(out)})
         IN  IF Len(out) # m /\ Len(out) # 2 * m THEN Refused
             ELSE IF Len(orow) - 1 < n + base THEN Refused
             ELSE IF orow[n + base + 1] # Len(out) THEN Refused
             ELSE Ok(Csr(n, n + base, mx + 1, SubSeq(orow, 1, n + base + 1), out))

Meaning == IF IsGraph THEN LoadGraph(Ty, t) ELSE LoadEL("int", Ty, t)

Right == Done => Meaning.st = "any" \/ (Result = Meaning /\ \A i \in 1..Len(out) : out[i] # Undef)

\* (complete texts are printed, to be loaded by the implementation)
Printed == Done => Shown

=============================================================================
