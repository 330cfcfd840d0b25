------------------------------- MODULE PigoTrace -------------------------------
(***************************************************************************)
(* Validation of recorded histories.  Every line of the input is one       *)
(* history [id, mode, ev]; every history is one initial state, and every   *)
(* event is one step: the state after it is taken from the record (which   *)
(* lists what changed), and Step must allow it.                            *)
(***************************************************************************)
EXTENDS Pigo, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES k, i, O, F, P, ok
vars == <<k, i, O, F, P, ok>>

Empty == [x \in {} |-> None]

Init ==
    /\ k \in 1..Len(Traces)
    /\ i = 0
    /\ O = Empty /\ F = Empty /\ P = Empty
    /\ ok = TRUE

\* The state after event e
After(f, changed, gone) ==
    LET G == {gone[j] : j \in 1..Len(gone)}
        S == {j \in 1..Len(changed) : TRUE}
        H == {changed[j][1] : j \in S}
    IN  [x \in (DOMAIN f \ G) \cup H |->
            IF x \in H THEN changed[CHOOSE j \in S : changed[j][1] = x][2] ELSE f[x]]

ObjsAfter(e) == IF e.objs = << >> /\ e.gone = << >> THEN O ELSE After(O, e.objs, e.gone)
FilesAfter(e) ==
    IF e.files = << >> /\ e.fgone = << >> THEN F
    ELSE After(F, [j \in 1..Len(e.files) |->
                    <<e.files[j][1], [t |-> e.files[j][2], b |-> e.files[j][3]]>>], e.fgone)

\* File objects are not observable as a whole; their next state is computed
\* from what the event reports and then judged by Step
OpensAfter(e) ==
    IF e.op = "leave" THEN Empty
    ELSE IF e.op = "fopen" /\ e.err = ""
    THEN IF e.fn \in DOMAIN F \/ e.md = "w"
         THEN Put(P, e.f, [fn |-> e.fn, md |-> e.md, pos |-> e.pos, size |-> e.size,
                           b |-> IF e.md = "r" THEN F[e.fn].b ELSE [j \in 1..e.size |-> -1]])
         ELSE P
    ELSE IF e.op = "loadf" /\ "pos" \in DOMAIN e
    THEN Put(P, e.f, [P[e.f] EXCEPT !.pos = e.pos])
    ELSE IF e.op = "savef"
    THEN LET p == P[e.f]
             B == BytesOf(Traces[k].mode, e.ty, O[e.h])
         IN  Put(P, e.f, [p EXCEPT !.pos = e.pos, !.b = Overwrite(p.b, p.pos,
                                                    SubSeq(B, 1, Min({Len(B), e.pos - p.pos})))])
    ELSE IF e.op \notin FileOps \/ e.err # "" THEN P
    ELSE LET p == P[e.f]
             q == IF "pos" \in DOMAIN e THEN [p EXCEPT !.pos = e.pos] ELSE p
         IN  CASE e.op \in {"fwrite", "fwrites", "fpw"} ->
                    Put(P, e.f, [q EXCEPT !.b = Overwrite(p.b, p.pos, e.val)])
               [] e.op = "fmove" -> Put(Without(P, {e.f}), e.to, q)
               [] e.op = "fmasg" /\ e.f # e.to -> Put(Without(P, {e.f}), e.to, q)
               [] e.op = "fclose" -> Without(P, {e.f})
               [] OTHER -> Put(P, e.f, q)

Abnormal == {"CRASH", "HANG"}

Next ==
    /\ ok
    /\ i < Len(Traces[k].ev)
    /\ LET e == Traces[k].ev[i + 1]
           mode == Traces[k].mode
       IN  /\ i' = i + 1
           /\ k' = k
           /\ IF e.err \in Abnormal
              THEN ok' = FALSE /\ UNCHANGED <<O, F, P>>
              ELSE /\ O' = ObjsAfter(e)
                   /\ F' = FilesAfter(e)
                   /\ P' = OpensAfter(e)
                   /\ ok' = Step(mode, e, O, F, P, O', F', P')
           /\ ok' \/ PrintT(<<"REJECT", Traces[k].id, i + 1>>)

Spec == Init /\ [][Next]_vars

View == <<k, i>>

=============================================================================
