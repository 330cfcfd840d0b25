-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Texts are sequences of bytes (0..255).  This module says what the lines *)
(* of a text are and how a number is spelled, independently of any cursor  *)
(* movement or of how a text is divided among threads.                     *)
(*                                                                         *)
(* Numbers come in two representations, chosen by `mode':                  *)
(*   "int"   TLC integers (for values below 2^31)                          *)
(*   "wide"  <<neg, d1, ..., dk>>: sign (0/1) and decimal digits without   *)
(*           leading zeros (<<0, 0>> is zero), for numbers of any size     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

NL == 10
CR == 13
TAB == 9
SP == 32
PLUS == 43
MINUS == 45
DOT == 46

IsDig(c) == c >= 48 /\ c <= 57
IsCmt(c) == c = 35 \/ c = 37                      \* # and %
IsSign(c) == c = PLUS \/ c = MINUS
IsExp(c) == c = 101 \/ c = 69                      \* e and E
IsFp(c) == IsDig(c) \/ IsExp(c) \/ IsSign(c) \/ c = DOT

\* The elements of a set of integers, in increasing order
Sorted(S) == SetToSortSeq(S, <)

MinOr(S, d) == IF S = {} THEN d ELSE Min(S)

(***************************************************************************)
(* Lines                                                                   *)
(***************************************************************************)
\* The lines of a text; the piece after the last newline counts as a line
\* (it is empty if the text ends in a newline).
Lines(t) ==
    LET ps == Sorted({i \in 1..Len(t) : t[i] = NL})
        n == Len(ps)
    IN  [k \in 1..(n+1) |->
            SubSeq(t, IF k = 1 THEN 1 ELSE ps[k-1] + 1,
                      IF k > n THEN Len(t) ELSE ps[k] - 1)]

\* A line without its comment
Cut(l) ==
    LET p == MinOr({i \in 1..Len(l) : IsCmt(l[i])}, Len(l) + 1)
    IN  IF p > Len(l) THEN l ELSE SubSeq(l, 1, p - 1)

\* The maximal runs of digits of a line: a sequence of <<first, last>>
Runs(l) ==
    LET S == Sorted({i \in 1..Len(l) : IsDig(l[i]) /\ (i = 1 \/ ~IsDig(l[i-1]))})
        E == Sorted({i \in 1..Len(l) : IsDig(l[i]) /\ (i = Len(l) \/ ~IsDig(l[i+1]))})
    IN  [k \in 1..Len(S) |-> <<S[k], E[k]>>]

(***************************************************************************)
(* Integers                                                                *)
(***************************************************************************)
RECURSIVE DigVal(_, _, _, _)
DigVal(l, a, b, acc) == IF a > b THEN acc ELSE DigVal(l, a + 1, b, acc * 10 + (l[a] - 48))

\* The number spelled by the digits l[a..b]
Num(mode, l, a, b) ==
    IF mode = "int" THEN DigVal(l, a, b, 0)
    ELSE LET p == MinOr({i \in a..b : l[i] # 48}, b)     \* no leading zeros
         IN  <<0>> \o [i \in 1..(b - p + 1) |-> l[p + i - 1] - 48]

\* The same, but two thousand million for what is larger than any file is long
Announced(l, a, b) ==
    LET p == MinOr({i \in a..b : l[i] # 48}, b)
    IN  IF b - p + 1 > 9 THEN 2000000000 ELSE DigVal(l, p, b, 0)

Zero(mode) == IF mode = "int" THEN 0 ELSE <<0, 0>>
One(mode) == IF mode = "int" THEN 1 ELSE <<0, 1>>

NumNeg(mode, v) == IF mode = "int" THEN -v
                   ELSE IF v = <<0, 0>> THEN v ELSE <<1 - v[1]>> \o Tail(v)

\* a < b for wide numbers that are not negative
WideLess(a, b) ==
    \/ Len(a) < Len(b)
    \/ /\ Len(a) = Len(b)
       /\ a # b
       /\ LET i == Min({j \in 1..Len(a) : a[j] # b[j]}) IN a[i] < b[i]

NumLess(mode, a, b) == IF mode = "int" THEN a < b ELSE WideLess(a, b)
NumMax(mode, a, b) == IF NumLess(mode, a, b) THEN b ELSE a

\* The successor (of a number that is not negative)
NumSucc(mode, v) ==
    IF mode = "int" THEN v + 1
    ELSE LET D == {i \in 2..Len(v) : v[i] # 9}
         IN  IF D = {} THEN <<0, 1>> \o [i \in 1..(Len(v)-1) |-> 0]
             ELSE LET p == Max(D)
                  IN  [i \in 1..Len(v) |-> IF i < p THEN v[i]
                                           ELSE IF i = p THEN v[i] + 1 ELSE 0]

\* The largest of a sequence of numbers that are not negative (zero if none)
NumMaxSeq(mode, s) ==
    IF mode = "int" THEN FoldLeft(LAMBDA a, b : IF a < b THEN b ELSE a, 0, s)
    ELSE FoldLeft(LAMBDA a, b : NumMax(mode, a, b), <<0, 0>>, s)

\* The decimal spelling of a number, as bytes
RECURSIVE PosText(_)
PosText(v) == IF v < 10 THEN <<48 + v>> ELSE PosText(v \div 10) \o <<48 + (v % 10)>>

NumText(mode, v) ==
    IF mode = "int"
    THEN IF v >= 0 THEN PosText(v)
         ELSE IF v < -2147483647 THEN <<45, 50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>
         ELSE <<MINUS>> \o PosText(-v)
    ELSE (IF v[1] = 1 THEN <<MINUS>> ELSE << >>) \o [i \in 1..(Len(v)-1) |-> v[i+1] + 48]

(***************************************************************************)
(* Decimal fractions.  In mode "int" the value is given in units of 1/64,  *)
(* in mode "wide" as [neg, m, e]: m has nine digits, the first not zero,   *)
(* and the value is (neg) 0.m * 10^e; m = 0 is zero.                       *)
(***************************************************************************)
RECURSIVE Pow10(_)
Pow10(n) == IF n <= 0 THEN 1 ELSE 10 * Pow10(n - 1)

\* The parts of the spelling that starts at position p of l:
\* sign, mantissa digits, number of them before the point, exponent, end
FpParts(l, p) ==
    LET n == Len(l)
        s == IF p <= n /\ IsSign(l[p]) THEN p + 1 ELSE p          \* after the sign
        i == MinOr({j \in s..n : ~IsDig(l[j])}, n + 1)            \* after the integer part
        d == i <= n /\ l[i] = DOT
        f == IF d THEN MinOr({j \in (i+1)..n : ~IsDig(l[j])}, n + 1) ELSE i
        x == f <= n /\ IsExp(l[f])
        xs == IF x /\ f + 1 <= n /\ IsSign(l[f+1]) THEN f + 2 ELSE f + 1
        xe == MinOr({j \in xs..n : ~IsDig(l[j])}, n + 1)
    IN  [neg |-> p <= n /\ l[p] = MINUS,
         ip |-> SubSeq(l, s, i - 1),
         fp |-> IF d THEN SubSeq(l, i + 1, f - 1) ELSE << >>,
         hasx |-> x,
         xok |-> ~x \/ xe > xs,
         xp |-> IF ~x \/ xe = xs THEN 0
                ELSE IF xs = f + 2 /\ l[f+1] = MINUS THEN -DigVal(l, xs, xe - 1, 0)
                ELSE DigVal(l, xs, xe - 1, 0),
         end |-> IF x THEN xe ELSE f]

\* A spelling of a number: at least one digit in the mantissa, digits in the
\* exponent if there is one, and nothing that could belong to it after it
FpOk(l, p) ==
    LET q == FpParts(l, p)
    IN  /\ Len(q.ip) + Len(q.fp) > 0
        /\ q.xok
        /\ q.end > Len(l) \/ ~IsFp(l[q.end])

\* value * 64, for spellings whose value is a multiple of 1/64
Fp64(q) ==
    LET digs0 == q.ip \o q.fp
        sc0 == q.xp - Len(q.fp)
        nz == {i \in 1..Len(digs0) : digs0[i] # 48}
        k == IF nz = {} THEN 1 ELSE Max(nz)
        digs == SubSeq(digs0, 1, k)                     \* no trailing zeros
        sc == sc0 + (Len(digs0) - k)
        N == IF digs0 = << >> THEN 0 ELSE DigVal(digs, 1, Len(digs), 0)
        \* N * 10^sc * 64 = N * 10^(6+sc) / 15625
        v == IF N = 0 THEN 0
             ELSE IF sc >= 0 THEN N * Pow10(sc) * 64
             ELSE (N * Pow10(6 + sc)) \div 15625
    IN  IF q.neg THEN -v ELSE v

RECURSIVE Pad9(_)
Pad9(d) == IF Len(d) >= 9 THEN SubSeq(d, 1, 9) ELSE Pad9(d \o <<48>>)

FpSci(q) ==
    LET digs == q.ip \o q.fp
        p == MinOr({i \in 1..Len(digs) : digs[i] # 48}, 0)
    IN  IF p = 0 THEN [neg |-> FALSE, m |-> 0, e |-> 0]
        ELSE [neg |-> q.neg,
              m |-> LET d == Pad9(SubSeq(digs, p, Len(digs))) IN DigVal(d, 1, 9, 0),
              e |-> Len(q.ip) - (p - 1) + q.xp]

\* The two values differ by no more than a millionth, relative or absolute
Nano(a) == IF a.m = 0 \/ a.e < -8 THEN 0 ELSE a.m \div Pow10(-a.e)   \* for a.e <= 0
FpClose(a, b) ==
    \/ a = b
    \/ /\ a.e <= 0 /\ b.e <= 0                            \* both below one
       /\ LET x == IF a.neg THEN -Nano(a) ELSE Nano(a)
              y == IF b.neg THEN -Nano(b) ELSE Nano(b)
          IN  x - y <= 1000 /\ y - x <= 1000
    \/ /\ a.m # 0 /\ b.m # 0 /\ a.neg = b.neg
       /\ \/ /\ a.e = b.e
             /\ a.m - b.m <= (a.m \div 1000000) + 2
             /\ b.m - a.m <= (a.m \div 1000000) + 2
          \/ /\ a.e = b.e + 1 /\ a.m <= 100000100 /\ b.m >= 999999000
          \/ /\ b.e = a.e + 1 /\ b.m <= 100000100 /\ a.m >= 999999000

\* t is the value w with six decimals: of that shape, and as close as nine
\* digits can tell (numbers of more than seventeen digits need not be exact)
HalfUnit(e) == CASE e <= 0 -> 501 [] e = 1 -> 52 [] e = 2 -> 7 [] OTHER -> 2
SixOk(w, t) ==
    LET q == FpParts(t, 1)
        v == FpSci(q)
    IN  /\ q.end = Len(t) + 1 /\ ~q.hasx
        /\ Len(q.fp) = 6 /\ Len(q.ip) >= 1
        /\ t[1] # PLUS
        /\ q.ip[1] = 48 => Len(q.ip) = 1
        /\ v.m # 0 => q.neg = w.neg
        /\ q.neg => w.neg \/ w.m = 0
        /\ \/ /\ w.e <= 0 /\ v.e <= 0
              /\ LET d == Nano(w) - Nano(v) IN d <= HalfUnit(0) /\ -d <= HalfUnit(0)
           \/ /\ w.m # 0 /\ v.m # 0 /\ w.e = v.e /\ w.e > 0
              /\ LET d == w.m - v.m IN d <= HalfUnit(w.e) /\ -d <= HalfUnit(w.e)
           \/ /\ v.e = w.e + 1 /\ v.m <= 100000100 /\ w.m >= 999999000
           \/ /\ w.e = v.e + 1 /\ w.m <= 100000100 /\ v.m >= 999999000

\* Six decimals for a multiple v of 1/64 (a millionth is 1/15625 of it)
Text64(v) ==
    LET a == IF v < 0 THEN -v ELSE v
        fr == (a % 64) * 15625
        six == [i \in 1..6 |-> 48 + ((fr \div Pow10(6 - i)) % 10)]
    IN  (IF v < 0 THEN <<MINUS>> ELSE << >>) \o PosText(a \div 64) \o <<DOT>> \o six

=============================================================================
