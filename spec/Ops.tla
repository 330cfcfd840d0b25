--------------------------------- MODULE Ops ---------------------------------
(***************************************************************************)
(* What conversions, sorting, duplicate removal and text output do to      *)
(* abstract objects (see Formats).                                         *)
(***************************************************************************)
EXTENDS Formats

\* Lexicographic order of tuples of integers of equal length
RECURSIVE LexFrom(_, _, _)
LexFrom(a, b, i) ==
    /\ i <= Len(a)
    /\ a[i] < b[i] \/ (a[i] = b[i] /\ LexFrom(a, b, i + 1))
LexLess(a, b) == LexFrom(a, b, 1)

\* A sequence of tuples of integers of equal length, in order.  (Every tuple is
\* numbered, so that a set holds all of them: TLC orders sets fast.)
Arranged(s) ==
    LET S == SortSeq(SetToSeq({Append(s[i], i) : i \in 1..Len(s)}), LexLess)
    IN  TLCEval([i \in 1..Len(S) |-> SubSeq(S[i], 1, Len(S[i]) - 1)])

\* Equality of two sequences as multisets
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(s, t) ==
    /\ Len(s) = Len(t)
    /\ LET S == Range(s) IN
       /\ S = Range(t)
       /\ \/ Cardinality(S) = Len(s)
          \/ IF Len(s) < 100 THEN \A x \in S : Count(s, x) = Count(t, x)
             ELSE Arranged(s) = Arranged(t)

(***************************************************************************)
(* Rows of a csr                                                           *)
(***************************************************************************)
NumRows(c) == Len(c.off) - 1
Row(c, v) == SubSeq(c.e, c.off[v+1] + 1, c.off[v+2])          \* v from 0

\* The row starts are well-formed
OffsetsOk(c) ==
    /\ c.m = Len(c.e)
    /\ Len(c.off) = (IF c.nr > c.n THEN c.nr ELSE c.n) + 1
    /\ c.off[1] = 0
    /\ \A i \in 1..(Len(c.off) - 1) : c.off[i] <= c.off[i+1]
    /\ c.off[Len(c.off)] = c.m

\* The row of every element
RowOf(c) ==
    FlattenSeq([v \in 1..NumRows(c) |-> [j \in 1..(c.off[v+1] - c.off[v]) |-> v - 1]])

\* All elements as <<row>> \o element, in storage order (row -1: in no row)
Triples(c) ==
    LET r == RowOf(c)
    IN  TLCEval([j \in 1..Len(c.e) |-> <<IF j <= Len(r) THEN r[j] ELSE -1>> \o c.e[j]])

Less1(a, b) ==       \* lexicographic order of tuples of integers
    \/ a[1] < b[1]
    \/ /\ a[1] = b[1]
       /\ Len(a) > 1
       /\ \/ a[2] < b[2]
          \/ /\ a[2] = b[2]
             /\ Len(a) > 2
             /\ a[3] < b[3]

(***************************************************************************)
(* COO to CSR                                                              *)
(***************************************************************************)
\* c is a compressed form of coo a (within a row, any order)
IsCsrOf(c, a) ==
    /\ c.k = "csr"
    /\ c.n = a.n /\ c.nr = a.nr /\ c.nc = a.nc /\ c.m = a.m
    /\ OffsetsOk(c)
    /\ SameBag(Triples(c), a.e)

\* Every label is below the number of rows of the compressed form
CsrDefined(a) ==
    /\ a.m = Len(a.e)
    /\ \A k \in 1..a.m : a.e[k][1] >= 0 /\ a.e[k][1] < (IF a.nr > a.n THEN a.nr ELSE a.n)

\* The sizes of coo a fit types ty
Fit(ty, a) == Counts(ty, a.m) /\ Max({a.n, a.nr, a.nc}) <= LabelTop("int", ty)

\* So many rows that there may not be memory for them
Huge(a) == a.n > 1000000 \/ a.nr > 1000000 \/ a.nc > 1000000

\* One such form: rows in order of appearance
CsrOf(a) ==
    LET R == IF a.nr > a.n THEN a.nr ELSE a.n
        rows == [v \in 1..R |-> SelectSeq(a.e, LAMBDA x : x[1] = v - 1)]
    IN  Csr(a.n, a.nr, a.nc, Offsets([v \in 1..R |-> Len(rows[v])]),
            FoldLeft(LAMBDA acc, r : acc \o [j \in 1..Len(r) |-> Tail(r[j])], << >>, rows))

(***************************************************************************)
(* CSR to COO                                                              *)
(***************************************************************************)
CooOf(ty, c) ==
    IF ty.ut /\ ~ty.sym THEN NotImpl
    ELSE IF ty.sl THEN NotImpl
    ELSE
    LET T == Triples(c)
        m == Len(T)
        E == IF Mirrors(ty)
             THEN [k \in 1..(2 * m) |-> IF k % 2 = 1 THEN Flip(T[(k + 1) \div 2]) ELSE T[k \div 2]]
             ELSE IF ty.sym THEN [k \in 1..m |-> Order("int", T[k])]
             ELSE T
        big == IF c.nr < c.nc THEN c.nc ELSE c.nr
        nr == IF ty.sym THEN big ELSE c.nr
        nc == IF ty.sym THEN big ELSE c.nc
        n == IF nc > c.n THEN nc ELSE c.n
    IN  IF ~Counts(ty, Len(E)) \/ Max({n, nr, nc}) > LabelTop("int", ty) THEN Refused ELSE Ok(Coo(n, nr, nc, E))

(***************************************************************************)
(* Sort and duplicate removal                                              *)
(***************************************************************************)
Sizes(c) == <<c.n, c.nr, c.nc, c.m>>

\* d is c with every row in order (by column, then weight)
IsSortOf(d, c) ==
    /\ d.k = "csr"
    /\ Sizes(d) = Sizes(c)
    /\ d.off = c.off
    /\ Len(d.e) = Len(c.e)
    /\ LET T == Triples(d) IN
       /\ \A j \in 1..(Len(T) - 1) : T[j] = T[j+1] \/ Less1(T[j], T[j+1])
       /\ SameBag(T, Triples(c))

SortOf(c) == [c EXCEPT !.e =
    LET T == Arranged(Triples(c)) IN [j \in 1..Len(T) |-> Tail(T[j])]]

\* c without duplicates: first of every (row, column) of the sorted form
DedupOf(c) ==
    LET T == Arranged(Triples(c))
        I == {j \in 1..Len(T) : j = 1 \/ SubSeq(T[j], 1, 2) # SubSeq(T[j-1], 1, 2)}
        D == LET s == Sorted(I) IN [j \in 1..Len(s) |-> T[s[j]]]
        R == NumRows(c)
        len == [v \in 1..R |-> Cardinality({Row(c, v-1)[j][1] : j \in 1..Len(Row(c, v-1))})]
    IN  Csr(c.n, c.nr, c.nc, Offsets(len), [j \in 1..Len(D) |-> Tail(D[j])])

(***************************************************************************)
(* Transposition                                                           *)
(***************************************************************************)
Transpose(a) == [a EXCEPT !.e = [k \in 1..Len(a.e) |-> Flip(a.e[k])]]

(***************************************************************************)
(* Directed graphs and matrices made of a coo                              *)
(***************************************************************************)
IsDigOf(d, a) ==
    /\ d.k = "dig"
    /\ d.n = a.n /\ d.nr = a.nr /\ d.nc = a.nc /\ d.m = a.m
    /\ IsCsrOf(d.out, a)
    /\ IsCsrOf(d.in, Transpose(a))

IsMatOf(d, a) ==
    /\ d.k = "mat"
    /\ d.nr = a.nr /\ d.nc = a.nc
    /\ IsCsrOf(d.csr, a)
    /\ IsCsrOf(d.csc, Transpose(a))

\* The views of a graph agree with its rows
ViewsOk(g) == OffsetsOk(g) =>
    /\ Len(g.deg) = NumRows(g)
    /\ Len(g.nbr) = NumRows(g) /\ Len(g.at) = NumRows(g)
    /\ \A v \in 1..NumRows(g) :
        LET r == Row(g, v - 1)
        IN  /\ g.deg[v] = Len(r)
            /\ g.at[v] = <<g.off[v], g.off[v+1]>>
            /\ g.nbr[v] = [j \in 1..Len(r) |-> r[j][1]]

(***************************************************************************)
(* Text output                                                             *)
(***************************************************************************)
\* t is the text of value i of entry x: a label, or the weight at the end
FieldOk(mode, W, nl, x, i, t) ==
    IF i <= nl \/ W # "f" THEN t = NumText(mode, x[i])
    ELSE IF mode = "int" THEN t = Text64(x[i])
    ELSE SixOk(x[i], t)

\* t is the text form of entries E: one line for each, nl labels and possibly
\* a weight, with single blanks between them
IsTextOf(mode, W, nl, t, E) ==
    LET ls == Lines(t)
        nf == nl + (IF W = "n" THEN 0 ELSE 1)
    IN  /\ Len(ls) = Len(E) + 1
        /\ ls[Len(ls)] = << >>
        /\ \A k \in 1..Len(E) :
            LET l == ls[k]
                B == <<0>> \o Sorted({i \in 1..Len(l) : l[i] = SP}) \o <<Len(l) + 1>>
            IN  /\ Len(B) = nf + 1
                /\ \A i \in 1..nf : FieldOk(mode, W, nl, E[k], i, SubSeq(l, B[i] + 1, B[i+1] - 1))

=============================================================================
