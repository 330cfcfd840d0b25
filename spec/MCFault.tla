-------------------------------- MODULE MCFault --------------------------------
(***************************************************************************)
(* All histories of up to DEPTH operations each of which may be refused    *)
(* memory or a system call, in every way the specification lets it end:    *)
(* whatever has failed before, objects are whole, only what was being made *)
(* or changed is concerned, and every operation can be carried out again.  *)
(* Histories are printed (a refused operation is marked by !) and replayed *)
(* with each resource in turn failing in the marked operations.            *)
(***************************************************************************)
EXTENDS Pigo, IOUtils

VARIABLES O, F, hist, e, O0, F0
vars == <<O, F, hist, e, O0, F0>>

Depth == atoi(IOEnv.DEPTH)
Joined(h) == FoldLeft(LAMBDA a, b : a \o b \o ";", "H;", h)
Empty == [x \in {} |-> None]
Ty == [L |-> 4, Ls |-> FALSE, O |-> 4, W |-> "n", Wb |-> 0, sym |-> FALSE, ut |-> FALSE, sl |-> FALSE]

A1 == Coo(2, 2, 2, <<<<0, 1>>, <<1, 1>>, <<0, 0>>>>)
B1 == Coo(3, 3, 3, <<<<2, 0>>>>)
\* files: one to read, one that is there before, one that is not
Text == <<48, 32, 49, 10, 49, 32, 49, 10, 48, 32, 48, 10>>     \* 0 1, 1 1, 0 0
Files == [x \in {"a", "old"} |-> [t |-> "file", b |-> IF x = "a" THEN Text ELSE <<120>>]]

Init == /\ O = [x \in {"A", "B"} |-> IF x = "A" THEN A1 ELSE B1]
        /\ F = Files
        /\ hist = << >> /\ e = [op |-> "none"] /\ O0 = O /\ F0 = F

Ev(rec) == rec @@ [err |-> ""]
Bad(rec) == rec @@ [err |-> "std", hit |-> 1]

\* operation rec, in full (to O2, F2) or refused (to one of the states bad)
Do(rec, line, O2, F2, bad) ==
    /\ O0' = O /\ F0' = F
    /\ \/ e' = Ev(rec) /\ O' = O2 /\ F' = F2 /\ hist' = Append(hist, line)
       \/ \E x \in bad : e' = Bad(rec) /\ O' = x[1] /\ F' = x[2] /\ hist' = Append(hist, "!" \o line)
    /\ Len(hist') = Depth => PrintT(Joined(hist'))

Same == {<<O, F>>}
CsrFor(a) == LET T == Arranged([i \in 1..Len(a.e) |-> Append(a.e[i], i)])
                 R == a.nr
             IN  Csr(a.n, a.nr, a.nc,
                     [v \in 1..(R + 1) |-> Cardinality({i \in 1..Len(a.e) : a.e[i][1] < v - 1})],
                     \* in the order of the entries: one of the permitted ones
                     [j \in 1..Len(T) |-> <<T[j][2]>>])
Backward(c) == [c EXCEPT !.e = [j \in 1..Len(c.e) |->
                  LET v == CHOOSE v \in 0..(NumRows(c) - 1) : c.off[v+1] < j /\ j <= c.off[v+2]
                  IN  c.e[c.off[v+1] + c.off[v+2] + 1 - j]]]

Load == Do([op |-> "load", h |-> "L", kind |-> "coo", ty |-> Ty, fn |-> "a", nm |-> <<97>>, ft |-> "EDGE_LIST"],
           "load L coo 0 0 a EDGE_LIST", Put(O, "L", A1), F, Same)
Convert(h) == /\ h \in DOMAIN O /\ O[h].k = "coo"
              /\ Do([op |-> "c2s", h |-> "S", src |-> h, ty |-> Ty], "c2s S " \o h,
                    Put(O, "S", Backward(CsrFor(O[h]))), F, Same)
Sort == /\ "S" \in DOMAIN O
        /\ Do([op |-> "sort", h |-> "S"], "sort S", Put(O, "S", SortOf(O["S"])), F,
              Same \cup {<<Put(O, "S", Backward(SortOf(O["S"]))), F>>})
Dedup == /\ "S" \in DOMAIN O
         /\ Do([op |-> "dd", h |-> "D", src |-> "S", ty |-> Ty], "dd D S",
               Put(Put(O, "S", SortOf(O["S"])), "D", DedupOf(O["S"])), F,
               Same \cup {<<Put(O, "S", SortOf(O["S"])), F>>})
Copy(h) == /\ h \in DOMAIN O /\ O[h].k = "coo"
           /\ Do([op |-> "copy", h |-> "C", src |-> h], "copy C " \o h, Put(O, "C", O[h]), F, Same)
Asg(d, s) == /\ s \in DOMAIN O /\ d \in DOMAIN O /\ O[s].k = "coo" /\ O[d].k = "coo"
             /\ Do([op |-> "asg", h |-> d, src |-> s], "asg " \o d \o " " \o s, Put(O, d, O[s]), F,
                   Same \cup {<<Put(O, d, [O[s] EXCEPT !.m = 0, !.e = << >>]), F>>})
Save(h, fn) ==
    /\ h \in DOMAIN O
    /\ Do([op |-> "save", h |-> h, fn |-> fn, ty |-> Ty], "save " \o h \o " " \o fn, O,
          Put(F, fn, [t |-> "file", b |-> BytesOf("int", Ty, O[h])]),
          Same \cup {<<O, Without(F, {fn})>>, <<O, Put(F, fn, [t |-> "file", b |-> << >>])>>})

Next ==
    /\ Len(hist) < Depth
    /\ \/ Load \/ Sort \/ Dedup
       \/ \E h \in {"A", "L", "C"} : Convert(h)
       \/ Copy("A") \/ Asg("B", "A") \/ Asg("C", "B") \/ Asg("A", "B")
       \/ Save("A", "old") \/ Save("S", "new")

Spec == Init /\ [][Next]_vars

Allowed == e.op # "none" => Step("int", e, O0, F0, Empty, O, F, Empty)

Whole(o) == CASE o.k = "coo" -> o.m = Len(o.e)
              [] o.k = "csr" -> o.m = Len(o.e) /\ OffsetsOk(o)
AllWhole == \A h \in DOMAIN O : Whole(O[h])

\* An outcome that also changes something else is refused
Concerned == CASE e.op = "dd" -> {e.h, e.src} [] e.op = "save" -> {} [] OTHER -> {e.h}
Frame == e.op # "none" =>
    /\ \A h \in (DOMAIN O0 \cap DOMAIN O) \ Concerned :
          ~Step("int", e, O0, F0, Empty, [O EXCEPT ![h].n = O[h].n + 1], F, Empty)
    /\ \A f \in (DOMAIN F0 \cap DOMAIN F) \ (IF e.op = "save" THEN {e.fn} ELSE {}) :
          ~Step("int", e, O0, F0, Empty, O, [F EXCEPT ![f].b = Append(@, 0)], Empty)
    \* and nothing is made by an operation that reports to have failed
    /\ (e.err # "" /\ e.op \notin {"asg", "sort", "save"}) =>
          ~Step("int", e, O0, F0, Empty, Put(O, "Z", B1), F, Empty)
    \* nor does a failure go unreported
    /\ (e.err # "" /\ e.op \in {"load", "c2s", "copy", "dd"} /\ e.h \notin DOMAIN O0) =>
          ~Step("int", [e EXCEPT !.err = ""], O0, F0, Empty, O, F, Empty)

=============================================================================
