--------------------------------- MODULE Prims ---------------------------------
(***************************************************************************)
(* The cursor operations on text.  t is the text, E the number of bytes of *)
(* it that may be looked at; positions count from 0 and E is "the end".    *)
(* Each operation is given by the position it moves to (and the value).    *)
(***************************************************************************)
EXTENDS Text

C(t, p) == t[p + 1]

\* The first position from p on with a character satisfying Q, or the end
First(t, E, p, Q(_)) == MinOr({q \in p..(E - 1) : Q(C(t, q))}, E)

IsNL(c) == c = NL

\* Position q is inside of a comment, for someone who reads from p on
InComment(t, p, q) ==
    \E j \in p..q : /\ IsCmt(C(t, j))
                    /\ \A i \in j..(q - 1) : C(t, i) # NL

\* The first position from p on that is outside of comments and satisfies Q
Outside(t, E, p, Q(_)) ==
    MinOr({q \in p..(E - 1) : Q(C(t, q)) /\ ~InComment(t, p, q)}, E)

RECURSIVE Skip(_, _, _)
Skip(t, E, p) ==
    IF p < E /\ IsCmt(C(t, p))
    THEN LET q == First(t, E, p, IsNL) IN Skip(t, E, IF q = E THEN E ELSE q + 1)
    ELSE p

NotDig(c) == ~IsDig(c)
NotFp(c) == ~IsFp(c)
DigOrSign(c) == IsDig(c) \/ IsSign(c)

NonInt(t, E, p) == First(t, E, p, NotDig)
NextInt(t, E, p) == Outside(t, E, NonInt(t, E, p), IsDig)

NextSigned(t, E, p) ==
    LET s == IF p < E /\ IsSign(C(t, p)) THEN p + 1 ELSE p
    IN  Outside(t, E, NonInt(t, E, s), DigOrSign)

\* The next integer or newline after the present one.  A comment ends the
\* line: the newline behind it is next.  Lines that only hold a comment are
\* passed over along with the newline before them.
NextOrNl(t, E, p) ==
    LET wasint == p < E /\ IsDig(C(t, p))
        q == NonInt(t, E, p)
        atnl == q < E /\ C(t, q) = NL
        s == IF atnl THEN Skip(t, E, q + 1) ELSE q
        r == First(t, E, s, LAMBDA c : IsDig(c) \/ c = NL \/ IsCmt(c))
    IN  IF atnl /\ wasint THEN q
        ELSE IF r < E /\ IsCmt(C(t, r)) THEN First(t, E, r, IsNL)
        ELSE r

MoveTo(t, E, p, ch) ==
    First(t, E, IF p < E /\ C(t, p) = ch THEN p + 1 ELSE p, LAMBDA c : c = ch)

\* How many numbers follow in the line (its comment excluded), less one
RECURSIVE Numbers(_, _, _)
Numbers(t, L, p) ==
    LET s == First(t, L, p, IsDig)
        m == First(t, L, s, LAMBDA c : ~IsDig(c) /\ c # DOT)
        x == IF m < L /\ IsExp(C(t, m))
             THEN NonInt(t, L, IF m + 1 < L /\ IsSign(C(t, m + 1)) THEN m + 2 ELSE m + 1)
             ELSE m
    IN  IF s = L THEN 0 ELSE 1 + Numbers(t, L, x)

Spaces(t, E, p) ==
    LET L == First(t, E, p, LAMBDA c : c = NL \/ IsCmt(c))
        n == Numbers(t, L, p)
    IN  IF n = 0 THEN 0 ELSE n - 1

\* (values are logged as wide numbers)
Wide(v) == IF v < 0 THEN <<1>> \o [i \in 1..Len(PosText(-v)) |-> PosText(-v)[i] - 48]
           ELSE <<0>> \o [i \in 1..Len(PosText(v)) |-> PosText(v)[i] - 48]
Bool(b) == IF b THEN <<0, 1>> ELSE <<0, 0>>

IntOk(t, E, p, r) ==
    LET s == First(t, E, p, IsDig)
        x == NonInt(t, E, s)
    IN  r = <<IF s = E THEN <<0, 0>> ELSE Num("wide", t, s + 1, x), x>>

FpReadOk(t, E, p, r) ==
    LET l == SubSeq(t, 1, E)
        s == First(t, E, p, IsFp)
        q == FpParts(l, s + 1)
    IN  IF s = E THEN r[1].m = 0 /\ r[2] = E
        ELSE IF FpOk(l, s + 1) /\ FpSci(q).e < 300 /\ FpSci(q).e > -300
        THEN r[2] = q.end - 1 /\ FpClose(FpSci(q), r[1])
        ELSE r[2] > s /\ r[2] <= E

\* The recorded results g of all operations at all positions are right
PrimsOk(g) ==
    LET t == g.t
        E == g.end
        At(f, Q(_)) == \A p \in 0..E : f[p + 1] = Q(p)
        Stay(f, Q(_)) == \A p \in 0..E : f[p + 1] = <<Q(p), p>>
    IN  /\ At(g.skipc, LAMBDA p : Skip(t, E, p))
        /\ At(g.nonint, LAMBDA p : NonInt(t, E, p))
        /\ At(g.nonfp, LAMBDA p : First(t, E, p, NotFp))
        /\ At(g.fp, LAMBDA p : First(t, E, p, IsFp))
        /\ At(g.first, LAMBDA p : Outside(t, E, p, IsDig))
        /\ At(g.next, LAMBDA p : NextInt(t, E, p))
        /\ At(g.nexts, LAMBDA p : NextSigned(t, E, p))
        /\ At(g.nextnl, LAMBDA p : NextOrNl(t, E, p))
        /\ At(g.eol, LAMBDA p : First(t, E, p, IsNL))
        /\ At(g.tonl, LAMBDA p : MoveTo(t, E, p, NL))
        /\ At(g.to1, LAMBDA p : MoveTo(t, E, p, 49))
        /\ At(g.add2, LAMBDA p : IF p + 2 > E THEN E ELSE p + 2)
        /\ At(g.plus1, LAMBDA p : IF p + 1 > E THEN E ELSE p + 1)
        /\ \A p \in 0..E : IntOk(t, E, p, g.int[p + 1])
        /\ \A p \in 0..E : FpReadOk(t, E, p, g.rfp[p + 1])
        /\ Stay(g.sign, LAMBDA p : IF p < E /\ C(t, p) = MINUS THEN <<1, 1>> ELSE <<0, 1>>)
        /\ Stay(g.ateol, LAMBDA p :
                LET q == First(t, E, p, IsNL)
                IN  Bool(\A i \in p..(q - 1) : C(t, i) = SP \/ C(t, i) = CR))
        /\ Stay(g.nleol, LAMBDA p : Bool(p = E \/ C(t, p) = NL \/ IsCmt(C(t, p))))
        /\ Stay(g.zero, LAMBDA p :
                Bool(p < E /\ C(t, p) = 48 /\ (p + 1 = E \/ ~IsDig(C(t, p + 1)))))
        /\ Stay(g.good, LAMBDA p : Bool(p < E))
        /\ Stay(g.size, LAMBDA p : Wide(E - p))
        /\ Stay(g.peek, LAMBDA p : IF p = E THEN <<0, 0>> ELSE Wide(C(t, p)))
        /\ \A p \in 0..E : g.spaces[p + 1] = <<Wide(Spaces(t, E, p)), First(t, E, p, IsNL)>>
        /\ Stay(g.str, LAMBDA p : Bool(p + 2 <= E /\ C(t, p) = 49 /\ C(t, p + 1) = SP))
        /\ Stay(g.str0, LAMBDA p : Bool(TRUE))

\* The positions of character c from position at on, counted from there
OffsetsOf(t, E, at, c) ==
    LET S == Sorted({q \in at..(E - 1) : C(t, q) = c})
    IN  [i \in 1..Len(S) |-> S[i] - at]

=============================================================================
