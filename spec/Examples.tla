------------------------------- MODULE Examples --------------------------------
(***************************************************************************)
(* The pipelines of the example programs, composed of the operations of    *)
(* Formats and Ops: what the program must print, write and return for the  *)
(* bytes of its input file.                                                *)
(***************************************************************************)
EXTENDS Pigo

Ty(s, u, l) == [L |-> 8, Ls |-> FALSE, O |-> 8, W |-> "n", Wb |-> 0, sym |-> s, ut |-> u, sl |-> l]

Fails == [st |-> "fails"]
AnyRun == [st |-> "any"]
\* may: the program may also fail instead
Gives(E, may) == IF E = << >> THEN Fails ELSE [st |-> "ok", e |-> E, may |-> may]

Text(E) == FoldLeft(LAMBDA acc, x : acc \o PosText(x[1]) \o <<SP>> \o PosText(x[2]) \o <<NL>>, << >>, E)

\* A file into a coo with options, compressed, changed by Op, expanded
Through(ty, nm, t, Op(_)) ==
    LET r == CooSource("int", ty, Detect(nm, t), t)
    IN  IF r.st = "any" THEN AnyRun
        ELSE IF r.st \notin {"ok", "may"} THEN Fails
        ELSE IF ~CsrDefined(r.obj) THEN Fails
        ELSE Gives(CooOf(Ty(FALSE, FALSE, FALSE), Op(CsrOf(r.obj))).obj.e, r.st = "may")

Clean(nm, t) == Through(Ty(TRUE, TRUE, TRUE), nm, t, DedupOf)
Symmetrized(nm, t) == Through(Ty(TRUE, FALSE, FALSE), nm, t, SortOf)

\* Is there an edge from s to d
Find(nm, t, s, d) ==
    LET et == Detect(nm, t)
        r == IF et \in {"GRAPH", "PIGO_CSR_BIN"} THEN CsrSource("int", Ty(FALSE, FALSE, FALSE), et, t)
             ELSE CooSource("int", Ty(FALSE, FALSE, FALSE), et, t)
    IN  IF r.st = "any" THEN AnyRun
        ELSE IF r.st \notin {"ok", "may"} THEN Fails
        ELSE IF r.obj.k = "coo" /\ ~CsrDefined(r.obj) THEN Fails
        ELSE LET c == IF r.obj.k = "coo" THEN CsrOf(r.obj) ELSE r.obj
             IN  IF s < 0 \/ d < 0 \/ s >= c.n \/ d >= c.n THEN Fails
                 ELSE [st |-> "ok", may |-> r.st = "may", found |-> \E j \in 1..Len(Row(c, s)) : Row(c, s)[j][1] = d]

(***************************************************************************)
(* What the canonical form of a graph is, said directly                    *)
(***************************************************************************)
Canonical(E) ==
    LET U == {<<IF x[1] < x[2] THEN x[1] ELSE x[2], IF x[1] < x[2] THEN x[2] ELSE x[1]>> :
                x \in {E[i] : i \in {j \in 1..Len(E) : E[j][1] # E[j][2]}}}
    IN  SetToSortSeq(U, Less1)

BothWays(E) ==
    LET B == FoldLeft(LAMBDA acc, x : IF x[1] = x[2] THEN Append(acc, x) ELSE acc \o <<x, Flip(x)>>, << >>, E)
    IN  SortSeq(B, Less1)

\* One run of a program.  e.out is what its output file holds afterwards
\* (e.old before), e.rc its exit status, or -1 if it was ended by a signal
Allowed(e) ==
    LET r == CASE e.prog = "clean" -> Clean(e.nm, e.t)
               [] e.prog = "symm" -> Symmetrized(e.nm, e.t)
               [] e.prog = "find" -> Find(e.nm, e.t, e.src, e.dst)
        failed == e.rc \notin {0, 2} /\ (e.prog # "find" => e.out = e.old)
    IN  /\ e.crash = FALSE
        /\ CASE r.st = "any" -> TRUE
             [] r.st = "fails" -> failed
             [] r.st = "ok" /\ r.may /\ failed -> TRUE
             [] r.st = "ok" /\ e.prog = "find" ->
                    IF r.found THEN e.rc = 0 /\ e.says = "found" ELSE e.rc = 2 /\ e.says = "not found"
             [] r.st = "ok" -> e.rc = 0 /\ e.out = Text(r.e)

=============================================================================
