------------------------------- MODULE Formats -------------------------------
(***************************************************************************)
(* What each input format means: the abstract object that a file denotes   *)
(* when it is loaded with given types and options.                         *)
(*                                                                         *)
(* ty describes the types of an object:                                    *)
(*   L, O   bytes of a label and of an ordinal; Ls: labels are signed      *)
(*   W      weight kind: "n" none, "i" signed, "u" unsigned, "f" floating  *)
(*   Wb     bytes of a weight                                              *)
(*   sym, ut, sl   the three preprocessing options                         *)
(*                                                                         *)
(* Abstract objects (m is always the number of elements of e):             *)
(*   coo  n nr nc m e    e: sequence of <<x, y>> or <<x, y, w>>            *)
(*   csr  n nr nc m off e  e: sequence of <<c>> or <<c, w>>                *)
(*   ten  ord m e mx     e: sequence of <<c1, ..., ck>> or with weight     *)
(*   dig  n nr nc m out in     out, in: csr                                *)
(*   mat  nr nc csr csc                                                    *)
(*                                                                         *)
(* A loading result is [st, obj]: st = "ok", "err" (refused with an error),*)
(* "nyi" (refused as not implemented), or "any" (outside of the domain of  *)
(* the functional properties: any object or error, but no crash or hang).  *)
(***************************************************************************)
EXTENDS Text

None == [k |-> "none"]
Ok(o) == [st |-> "ok", obj |-> o]
Refused == [st |-> "err", obj |-> None]
NotImpl == [st |-> "nyi", obj |-> None]
AnyOutcome == [st |-> "any", obj |-> None]

HasW(ty) == ty.W # "n"

\* The largest label of types ty (as far as it can matter)
LabelTop(mode, ty) ==
    IF mode = "int"
    THEN CASE ty.L = 1 -> IF ty.Ls THEN 127 ELSE 255
           [] ty.L = 2 -> IF ty.Ls THEN 32767 ELSE 65535
           [] OTHER -> 2147483647
    ELSE <<0>> \o
         CASE ty.L = 1 -> IF ty.Ls THEN <<1, 2, 7>> ELSE <<2, 5, 5>>
           [] ty.L = 2 -> IF ty.Ls THEN <<3, 2, 7, 6, 7>> ELSE <<6, 5, 5, 3, 5>>
           [] ty.L = 4 -> IF ty.Ls THEN <<2, 1, 4, 7, 4, 8, 3, 6, 4, 7>>
                          ELSE <<4, 2, 9, 4, 9, 6, 7, 2, 9, 5>>
           [] ty.L = 8 -> IF ty.Ls THEN <<9, 2, 2, 3, 3, 7, 2, 0, 3, 6, 8, 5, 4, 7, 7, 5, 8, 0, 7>>
                          ELSE <<1, 8, 4, 4, 6, 7, 4, 4, 0, 7, 3, 7, 0, 9, 5, 5, 1, 6, 1, 5>>

\* The largest of the first d numbers of entries E
TopOf(mode, E, d) ==
    NumMaxSeq(mode, [k \in 1..(d * Len(E)) |-> E[((k - 1) \div d) + 1][((k - 1) % d) + 1]])

\* The largest number of so many bytes, as far as it can matter
MaxOf(bytes) == IF bytes = 1 THEN 255 ELSE IF bytes = 2 THEN 65535 ELSE 2147483647

\* So many entries can be counted with the ordinals of ty
Counts(ty, m) == m <= MaxOf(ty.O)

(***************************************************************************)
(* Weights                                                                 *)
(***************************************************************************)
\* Where the weight starts at or after position p of line l (0 if nowhere)
WStart(W, l, p) ==
    MinOr({i \in p..Len(l) :
            CASE W = "i" -> IsDig(l[i]) \/ IsSign(l[i])
              [] W = "u" -> IsDig(l[i])
              [] W = "f" -> IsFp(l[i])}, 0)

RunEnd(l, p) == MinOr({j \in p..Len(l) : ~IsDig(l[j])}, Len(l) + 1) - 1

WOk(W, l, p) ==
    LET s == WStart(W, l, p)
    IN  /\ s # 0
        /\ CASE W = "i" -> IsDig(l[s]) \/ (s < Len(l) /\ IsDig(l[s+1]))
             [] W = "u" -> TRUE
             [] W = "f" -> FpOk(l, s)

WVal(mode, W, l, p) ==
    LET s == WStart(W, l, p)
        a == IF IsDig(l[s]) THEN s ELSE s + 1
    IN  CASE W = "u" -> Num(mode, l, s, RunEnd(l, s))
          [] W = "i" -> LET v == Num(mode, l, a, RunEnd(l, a))
                        IN  IF l[s] = MINUS THEN NumNeg(mode, v) ELSE v
          [] W = "f" -> LET q == FpParts(l, s)
                        IN  IF mode = "int" THEN Fp64(q) ELSE FpSci(q)

(***************************************************************************)
(* Coordinate lines                                                        *)
(***************************************************************************)
CoordOk(W, l, r) == Len(r) >= 2 /\ (W = "n" \/ WOk(W, l, r[2][2] + 1))

CoordEntry(mode, W, l, r) ==
    LET x == Num(mode, l, r[1][1], r[1][2])
        y == Num(mode, l, r[2][1], r[2][2])
    IN  IF W = "n" THEN <<x, y>> ELSE <<x, y, WVal(mode, W, l, r[2][2] + 1)>>

\* The data lines of a text: comments cut, those without any number left out
DataLines(t) ==
    LET ls == Lines(t)
        cl == [k \in 1..Len(ls) |-> Cut(ls[k])]
    IN  SelectSeq(cl, LAMBDA l : \E i \in 1..Len(l) : IsDig(l[i]))

CoordsOk(W, ds) == \A k \in 1..Len(ds) : CoordOk(W, ds[k], Runs(ds[k]))
Coords(mode, W, ds) == TLCEval([k \in 1..Len(ds) |-> CoordEntry(mode, W, ds[k], Runs(ds[k]))])

(***************************************************************************)
(* Preprocessing options                                                   *)
(***************************************************************************)
Flip(e) == <<e[2], e[1]>> \o SubSeq(e, 3, Len(e))

Kept(mode, ty, e) ==
    /\ ~(ty.sl /\ e[1] = e[2])
    /\ ~(ty.ut /\ ~ty.sym /\ NumLess(mode, e[2], e[1]))

Order(mode, e) == IF NumLess(mode, e[2], e[1]) THEN Flip(e) ELSE e

Mirrors(ty) == ty.sym /\ ~ty.ut
Drops(ty) == ty.sl \/ (ty.ut /\ ~ty.sym)

Preprocess(mode, ty, E) ==
    LET K == SelectSeq(E, LAMBDA e : Kept(mode, ty, e))
    IN  IF ty.sym /\ ty.ut THEN [k \in 1..Len(K) |-> Order(mode, K[k])]
        ELSE IF ty.sym
        THEN FlattenSeq([k \in 1..Len(K) |-> IF K[k][1] = K[k][2] THEN <<K[k]>> ELSE <<K[k], Flip(K[k])>>])
        ELSE K

Coo(n, nr, nc, E) == [k |-> "coo", n |-> n, nr |-> nr, nc |-> nc, m |-> Len(E), e |-> E]

CooOfEntries(mode, E) ==
    LET nr == NumSucc(mode, NumMaxSeq(mode, [k \in 1..Len(E) |-> E[k][1]]))
        nc == NumSucc(mode, NumMaxSeq(mode, [k \in 1..Len(E) |-> E[k][2]]))
    IN  Coo(NumMax(mode, nr, nc), nr, nc, E)

(***************************************************************************)
(* Edge lists                                                              *)
(***************************************************************************)
LoadEL(mode, ty, t) ==
    LET ds == DataLines(t)
    IN  IF ~CoordsOk(ty.W, ds) THEN AnyOutcome
        ELSE LET raw == Coords(mode, ty.W, ds)
                 E == Preprocess(mode, ty, raw)
                 top == LabelTop(mode, ty)
             IN  IF NumLess(mode, top, TopOf(mode, raw, 2)) THEN AnyOutcome
                 \* one more than the largest label is to be counted
                 ELSE IF ~Counts(ty, Len(E)) \/ TopOf(mode, E, 2) = top THEN Refused
                 ELSE Ok(CooOfEntries(mode, E))

(***************************************************************************)
(* Matrix Market                                                           *)
(***************************************************************************)
Banner == << 37, 37, 77, 97, 116, 114, 105, 120, 77, 97, 114, 107, 101, 116, 32, 109, 97,
    116, 114, 105, 120, 32, 99, 111, 111, 114, 100, 105, 110, 97, 116, 101 >>
    \* %%MatrixMarket matrix coordinate

StartsWith(t, s) == Len(t) >= Len(s) /\ SubSeq(t, 1, Len(s)) = s
EndsWith(t, s) == Len(t) >= Len(s) /\ SubSeq(t, Len(t) - Len(s) + 1, Len(t)) = s

LoadMM(mode, ty, t) ==
    IF ~StartsWith(t, Banner) THEN NotImpl
    ELSE
    LET ds == DataLines(t)
        hr == IF ds = << >> THEN << >> ELSE Runs(ds[1])
    IN  IF Len(hr) < 3 THEN AnyOutcome
        ELSE IF ~CoordsOk(ty.W, Tail(ds)) THEN AnyOutcome
        ELSE
        LET h(i) == Num(mode, ds[1], hr[i][1], hr[i][2])
            nr0 == NumSucc(mode, h(1))
            nc0 == NumSucc(mode, h(2))
            nnz == Announced(ds[1], hr[3][1], hr[3][2])
            nr == IF ty.sym THEN NumMax(mode, nr0, nc0) ELSE nr0
            nc == IF ty.sym THEN nr ELSE nc0
            raw == Coords(mode, ty.W, Tail(ds))
            K == SelectSeq(raw, LAMBDA e : Kept(mode, ty, e))
            E == Preprocess(mode, ty, raw)
            found == CooOfEntries(mode, E)
            top == LabelTop(mode, ty)
        IN  IF NumLess(mode, top, NumMax(mode, NumMax(mode, h(1), h(2)), TopOf(mode, raw, 2)))
            THEN AnyOutcome
            ELSE IF h(1) = top \/ h(2) = top THEN Refused
            ELSE IF ~Counts(ty, Len(E)) THEN Refused
            ELSE IF ~Counts(ty, nnz) /\ ty.O < 4 THEN AnyOutcome
            ELSE IF NumLess(mode, nr, found.nr) \/ NumLess(mode, nc, found.nc) THEN Refused
            \* Too few entries: no explanation unless some were dropped on request
            ELSE IF ~Drops(ty) /\ Len(E) < nnz THEN Refused
            \* Too many: more than announced even if half of them are mirrored ones
            ELSE IF (IF Mirrors(ty) THEN Len(E) \div 2 ELSE Len(E)) > nnz THEN Refused
            \* Mirrored entries make other announcements than the number of lines
            \* explicable; whether they are accepted is left open
            ELSE IF Mirrors(ty) /\ nnz # Len(K) /\ nnz # Len(E) /\ ~Drops(ty)
            THEN [st |-> "may", obj |-> Coo(NumMax(mode, nr, nc), nr, nc, E)]
            ELSE Ok(Coo(NumMax(mode, nr, nc), nr, nc, E))

(***************************************************************************)
(* Adjacency files                                                         *)
(***************************************************************************)
Csr(n, nr, nc, off, E) ==
    [k |-> "csr", n |-> n, nr |-> nr, nc |-> nc, m |-> Len(E), off |-> off, e |-> E]

\* Offsets of rows with the given numbers of elements
Offsets(lens) ==
    FoldLeft(LAMBDA acc, d : Append(acc, acc[Len(acc)] + d), <<0>>, lens)

LoadGraph(ty, t) ==
    IF HasW(ty) THEN NotImpl
    ELSE
    LET ls == Lines(t)
        H == {k \in 1..Len(ls) : Runs(Cut(ls[k])) # << >>}
        hk == MinOr(H, 0)
    IN  IF hk = 0 THEN AnyOutcome
        ELSE IF Len(Runs(Cut(ls[hk]))) < 2 THEN AnyOutcome
        ELSE
        LET hl == Cut(ls[hk])
            hr == Runs(hl)
            n == Announced(hl, hr[1][1], hr[1][2])
            m == Announced(hl, hr[2][1], hr[2][2])
            last == Len(ls)
            \* lines that start with a comment character are not rows, and neither
            \* is what follows the last newline unless it holds a number
            body == SelectSeq([k \in 1..(last - hk) |-> <<hk + k, ls[hk + k]>>],
                        LAMBDA p : /\ p[2] = << >> \/ ~IsCmt(p[2][1])
                                   /\ p[1] < last \/ Runs(Cut(p[2])) # << >>)
            rows == TLCEval([k \in 1..Len(body) |-> LET l == Cut(body[k][2])
                                                r == Runs(l)
                                            IN  [j \in 1..Len(r) |-> <<l, r[j]>>]])
            odd == \/ hk = last                              \* header not ended
                   \/ \E k \in 1..Len(rows) : \E j \in 1..Len(rows[k]) :
                        LET q == rows[k][j] IN q[2][1] < q[2][2] /\ Num("int", q[1], q[2][1], q[2][2]) = 0
                   \* a blank unterminated last line may be a row or not
                   \/ ls[last] # << >> /\ ~IsCmt(ls[last][1]) /\ Runs(Cut(ls[last])) = << >>
            vals == TLCEval([k \in 1..Len(rows) |->
                        [j \in 1..Len(rows[k]) |->
                            LET q == rows[k][j] IN Num("int", q[1], q[2][1], q[2][2])]])
            E == FlattenSeq([k \in 1..Len(vals) |-> [j \in 1..Len(vals[k]) |-> <<vals[k][j]>>]])
            ints == Len(E)
            zero == \E i \in 1..ints : E[i][1] = 0
            base == IF zero THEN 0 ELSE 1
            lens == [k \in 1..Min({n, Len(vals)}) |-> IF k <= Len(vals) THEN Len(vals[k]) ELSE 0]
            mx == NumMaxSeq("int", [i \in 1..ints |-> E[i][1]])
        IN  IF odd THEN AnyOutcome
            ELSE IF ~Counts(ty, ints) THEN Refused
            \* a header with numbers that the types cannot hold
            ELSE IF n > LabelTop("int", ty) \/ mx > LabelTop("int", ty) \/ m > MaxOf(ty.O) THEN AnyOutcome
            ELSE IF n + base > LabelTop("int", ty) \/ mx = LabelTop("int", ty) THEN Refused
            ELSE IF ints # m /\ (ints % 2 # 0 \/ ints \div 2 # m) THEN Refused
            ELSE IF Len(rows) < n THEN Refused
            ELSE IF \E k \in 1..Len(rows) : k > n /\ rows[k] # << >> THEN Refused
            ELSE Ok(Csr(n, n + base, mx + 1,
                        IF zero THEN Offsets(lens) ELSE <<0>> \o Offsets(lens), E))

(***************************************************************************)
(* Tensor texts                                                            *)
(***************************************************************************)
IsBlank(c) == c = SP \/ c = TAB \/ c = CR

\* The blank-separated fields of a line, as <<first, last>>
Fields(l) ==
    LET S == Sorted({i \in 1..Len(l) : ~IsBlank(l[i]) /\ (i = 1 \/ IsBlank(l[i-1]))})
        E == Sorted({i \in 1..Len(l) : ~IsBlank(l[i]) /\ (i = Len(l) \/ IsBlank(l[i+1]))})
    IN  [k \in 1..Len(S) |-> <<S[k], E[k]>>]

Ten(o, E, mx) == [k |-> "ten", ord |-> o, m |-> Len(E), e |-> E, mx |-> mx]

MaxLabels(mode, o, E) ==
    [d \in 1..o |-> NumMaxSeq(mode, [k \in 1..Len(E) |-> E[k][d]])]

TenLineOk(W, l, f) ==
    LET nl == Len(f) - (IF W = "n" THEN 0 ELSE 1)
    IN  /\ nl >= 1
        /\ \A k \in 1..nl : \A i \in f[k][1]..f[k][2] : IsDig(l[i])
        /\ W # "n" =>
            LET s == f[Len(f)][1]
                x == f[Len(f)][2]
            IN  CASE W = "f" -> FpOk(l, s) /\ FpParts(l, s).end = x + 1
                  [] W = "u" -> \A i \in s..x : IsDig(l[i])
                  [] W = "i" -> /\ \A i \in (s+1)..x : IsDig(l[i])
                                /\ IsDig(l[s]) \/ (IsSign(l[s]) /\ x > s)

LoadTen(mode, ty, t) ==
    LET ds == DataLines(t)
        fs == TLCEval([k \in 1..Len(ds) |-> Fields(ds[k])])
        W == ty.W
    IN  IF \E k \in 1..Len(ds) : ~TenLineOk(W, ds[k], fs[k]) \/ Len(fs[k]) # Len(fs[1])
        THEN AnyOutcome
        ELSE IF ds = << >> THEN [st |-> "ten0", obj |-> None]    \* no entries, any order
        ELSE
        LET o == Len(fs[1]) - (IF W = "n" THEN 0 ELSE 1)
            E == TLCEval([k \in 1..Len(ds) |->
                    [i \in 1..Len(fs[k]) |->
                        IF i <= o THEN Num(mode, ds[k], fs[k][i][1], fs[k][i][2])
                        ELSE WVal(mode, W, ds[k], fs[k][i][1])]])
        IN  IF NumLess(mode, LabelTop(mode, ty), TopOf(mode, E, o)) THEN AnyOutcome
            ELSE IF ~Counts(ty, o) \/ ~Counts(ty, Len(E)) THEN Refused
            ELSE Ok(Ten(o, E, MaxLabels(mode, o, E)))

=============================================================================
