--------------------------------- MODULE MCFile --------------------------------
(***************************************************************************)
(* All histories of up to DEPTH operations on file objects: one file of    *)
(* five bytes that is read, one of four bytes that is written.  The        *)
(* sequential meaning is checked against Step; neighbouring outcomes (a    *)
(* position that is off by one, a success reported as failure) are checked *)
(* to be refused.  Complete histories are printed for replay.              *)
(***************************************************************************)
EXTENDS Pigo, IOUtils

VARIABLES P, F, hist, e, P0, F0
vars == <<P, F, hist, e, P0, F0>>

Depth == atoi(IOEnv.DEPTH)
\* printed on one line
Joined(h) == FoldLeft(LAMBDA a, b : a \o b \o ";", "H;", h)
Empty == [x \in {} |-> None]
Content == <<11, 22, 0, 255, 65>>                              \* 0b1600ff41

Init == /\ P = Empty /\ F = ("f" :> [t |-> "file", b |-> Content])
        /\ hist = <<"put f 0b1600ff41">> /\ e = [op |-> "none"] /\ P0 = Empty /\ F0 = F

Do(rec, P2, F2, line) ==
    /\ e' = rec /\ P0' = P /\ F0' = F /\ P' = P2 /\ F' = F2
    /\ hist' = Append(hist, line)
    /\ Len(hist') = Depth => PrintT(Joined(hist'))

\* a record of file operation op on handle f that leaves it at position q
Rec(op, f, q, x) == [op |-> op, f |-> f, err |-> "", pos |-> q, size |-> P[f].size] @@ x
Bad(op, f, x) == [op |-> op, f |-> f, err |-> "Error", pos |-> P[f].pos, size |-> P[f].size] @@ x

OpenR(f) == /\ f \notin DOMAIN P /\ \A g \in DOMAIN P : P[g].fn # "f"
            /\ Do([op |-> "fopen", f |-> f, md |-> "r", fn |-> "f", n |-> 0, err |-> "", pos |-> 0, size |-> 5],
                  Put(P, f, [fn |-> "f", md |-> "r", pos |-> 0, size |-> 5, b |-> Content]), F,
                  "fopen " \o f \o " r f")
OpenW(f) == /\ f \notin DOMAIN P /\ \A g \in DOMAIN P : P[g].fn # "w"
            /\ Do([op |-> "fopen", f |-> f, md |-> "w", fn |-> "w", n |-> 4, err |-> "", pos |-> 0, size |-> 4],
                  Put(P, f, [fn |-> "w", md |-> "w", pos |-> 0, size |-> 4, b |-> <<-1, -1, -1, -1>>]),
                  Put(F, "w", [t |-> "open", b |-> << >>]), "fopen " \o f \o " w w 4")
Left(f) == P[f].size - P[f].pos
Known(v) == [i \in 1..Len(v) |-> IF v[i] = -1 THEN 0 ELSE v[i]]
Get(f, n) == Known(SubSeq(P[f].b, P[f].pos + 1, P[f].pos + n))

Rd(f, op, n) ==
    LET x == [n |-> n] IN
    IF n <= Left(f)
    THEN Do(Rec(op, f, P[f].pos + n, x @@ [val |-> Get(f, n)]), Put(P, f, Moved(P[f], n)), F,
            op \o " " \o f \o " " \o ToString(n))
    ELSE Do(Bad(op, f, x), P, F, op \o " " \o f \o " " \o ToString(n))
Wr(f, op, v, hex) ==
    LET x == [val |-> v] n == Len(v) IN
    /\ P[f].md = "w"
    /\ IF n <= Left(f)
       THEN Do(Rec(op, f, P[f].pos + n, x),
               Put(P, f, [Moved(P[f], n) EXCEPT !.b = Overwrite(P[f].b, P[f].pos, v)]), F,
               op \o " " \o f \o " " \o hex)
       ELSE Do(Bad(op, f, x), P, F, op \o " " \o f \o " " \o hex)
Seek(f, n) ==
    LET x == [n |-> n] l == "fseek " \o f \o " " \o ToString(n) IN
    IF n < P[f].size THEN Do(Rec("fseek", f, n, x), Put(P, f, [P[f] EXCEPT !.pos = n]), F, l)
    ELSE Do(Bad("fseek", f, x), P, F, l)
Str(f) ==
    LET x == [val |-> <<22, 0>>] IN
    /\ P[f].md = "r"
    /\ IF Left(f) >= 2 /\ Get(f, 2) = <<22, 0>>
       THEN Do(Rec("freads", f, P[f].pos + 2, x), Put(P, f, Moved(P[f], 2)), F, "freads " \o f \o " 1600")
       ELSE Do(Bad("freads", f, x), P, F, "freads " \o f \o " 1600")
Move(f, g) ==
    /\ g \notin DOMAIN P
    /\ Do([op |-> "fmove", f |-> f, to |-> g, err |-> "", pos |-> P[f].pos, size |-> P[f].size],
          Put(Without(P, {f}), g, P[f]), F, "fmove " \o f \o " " \o g)
Flush(p) == IF p.md = "r" THEN F ELSE Put(F, p.fn, [t |-> "file", b |-> Known(p.b)])
Masg(f, g) ==
    /\ g \in DOMAIN P /\ f # g
    /\ Do([op |-> "fmasg", f |-> f, to |-> g, err |-> "", pos |-> P[f].pos, size |-> P[f].size],
          Put(Without(P, {f}), g, P[f]), Flush(P[g]), "fmasg " \o f \o " " \o g)
Close(f) == Do([op |-> "fclose", f |-> f, err |-> ""], Without(P, {f}), Flush(P[f]), "fclose " \o f)

Next ==
    /\ Len(hist) < Depth
    /\ \/ OpenR("F") \/ OpenW("F") \/ ("F" \in DOMAIN P /\ (OpenR("G") \/ OpenW("G")))
       \/ \E f \in DOMAIN P :
            \/ Rd(f, "fread", 2) \/ Rd(f, "fread", 4) \/ Rd(f, "fpr", 3) \/ Str(f)
            \/ Wr(f, "fwrite", <<7>>, "07") \/ Wr(f, "fwrites", <<65, 0, 66>>, "410042")
            \/ Wr(f, "fpw", <<1, 2>>, "0102")
            \/ Seek(f, 1) \/ Seek(f, 3) \/ Seek(f, 4) \/ Close(f)
            \/ \E g \in {"F", "G"} : Move(f, g) \/ Masg(f, g)

Spec == Init /\ [][Next]_vars

St(ev, Px, Fx) == Step("int", ev, Empty, F0, P0, Empty, Fx, Px)
Allowed == e.op # "none" => St(e, P, F)
\* outcomes next to the right one are refused
Refused2 ==
    (e.op \in FileOps /\ e.op # "fclose") =>
        /\ ~St([e EXCEPT !.pos = @ + 1], P, F)
        /\ ~St([e EXCEPT !.err = IF @ = "" THEN "Error" ELSE ""], P, F)
        /\ "val" \in DOMAIN e /\ e.err = "" /\ e.op \in {"fread", "fpr"} /\ P0[e.f].md = "r" =>
            ~St([e EXCEPT !.val[1] = (@ + 1) % 256], P, F)

=============================================================================
