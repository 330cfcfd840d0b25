--------------------------------- MODULE Bin ---------------------------------
(***************************************************************************)
(* The binary formats.  A number is an integer (mode "int", at most four   *)
(* bytes and sign extension beyond; floating-point weights in units of     *)
(* 1/64) or, in mode "raw", the tuple of its bytes, lowest first.          *)
(***************************************************************************)
EXTENDS Ops

CooHeader == <<80, 73, 71, 79, 45, 67, 79, 79, 45, 118, 49>>          \* PIGO-COO-v1
CsrHeader == <<80, 73, 71, 79, 45, 67, 83, 82, 45, 118, 50>>          \* PIGO-CSR-v2
DigHeader == <<80, 73, 71, 79, 45, 68, 105, 71, 114, 97, 112, 104, 45, 118, 49>>
                                                                       \* PIGO-DiGraph-v1
TenHeader == <<80, 73, 71, 79, 45, 84, 101, 110, 115, 111, 114, 45, 50>>
                                                                       \* PIGO-Tensor-2
PigoPrefix == <<80, 73, 71, 79>>                                       \* PIGO

RECURSIVE Pow2(_)
Pow2(n) == IF n <= 0 THEN 1 ELSE 2 * Pow2(n - 1)
Pow256(j) == CASE j = 0 -> 1 [] j = 1 -> 256 [] j = 2 -> 65536 [] j = 3 -> 16777216

\* Byte j (from 0) of an integer, in two's complement
IntByte(v, j) == IF j > 3 THEN IF v < 0 THEN 255 ELSE 0
                 ELSE (v \div Pow256(j)) % 256

IntBytes(mode, v, b) == IF mode = "raw" THEN v ELSE [j \in 1..b |-> IntByte(v, j - 1)]

\* IEEE 754 encoding of k/64 for |k| < 2^24
RECURSIVE Log2(_)
Log2(a) == IF a < 2 THEN 0 ELSE 1 + Log2(a \div 2)
FloatBytes(k, b) ==
    IF k = 0 THEN [j \in 1..b |-> 0]
    ELSE
    LET a == IF k < 0 THEN -k ELSE k
        s == IF k < 0 THEN 1 ELSE 0
        e == Log2(a)
        f == a - Pow2(e)                        \* fraction, of 2^e
    IN  IF b = 4
        THEN LET x == 127 + e - 6
                 q == f * Pow2(23 - e)
             IN  <<q % 256, (q \div 256) % 256, (q \div 65536) + (x % 2) * 128, s * 128 + x \div 2>>
        ELSE LET x == 1023 + e - 6
                 h == IF e <= 20 THEN f * Pow2(20 - e) ELSE f \div Pow2(e - 20)
                 l == IF e <= 20 THEN 0 ELSE (f % Pow2(e - 20)) * Pow2(28 - e)
             IN  <<0, 0, 0, l, h % 256, (h \div 256) % 256,
                   (h \div 65536) + (x % 16) * 16, s * 128 + x \div 16>>

WBytes(mode, ty, w) ==
    IF mode = "raw" THEN w
    ELSE IF ty.W = "f" THEN FloatBytes(w, ty.Wb) ELSE IntBytes(mode, w, ty.Wb)

\* The concatenated encodings (of b bytes each) of a sequence of byte tuples
Flat(s, b) == [i \in 1..(Len(s) * b) |-> s[((i - 1) \div b) + 1][((i - 1) % b) + 1]]

Array(mode, s, b) == Flat([i \in 1..Len(s) |-> IntBytes(mode, s[i], b)], b)
WArray(mode, ty, s) ==
    IF ty.W = "n" THEN << >> ELSE Flat([i \in 1..Len(s) |-> WBytes(mode, ty, s[i])], ty.Wb)

\* Sizes given as TLC integers in every mode
SizeBytes(v, b) == [j \in 1..b |-> IntByte(v, j - 1)]

CooBytes(mode, ty, o) ==
    CooHeader \o <<ty.L, ty.O>>
    \o IntBytes(mode, o.nr, ty.L) \o IntBytes(mode, o.nc, ty.L) \o IntBytes(mode, o.n, ty.L)
    \o SizeBytes(o.m, ty.O)
    \o Array(mode, [i \in 1..o.m |-> o.e[i][1]], ty.L)
    \o Array(mode, [i \in 1..o.m |-> o.e[i][2]], ty.L)
    \o WArray(mode, ty, [i \in 1..o.m |-> o.e[i][3]])

CsrBytes(mode, ty, o) ==
    CsrHeader \o <<ty.L, ty.O>>
    \o IntBytes(mode, o.n, ty.L) \o SizeBytes(o.m, ty.O)
    \o IntBytes(mode, o.nr, ty.L) \o IntBytes(mode, o.nc, ty.L)
    \o Array(mode, o.off, ty.O)
    \o Array(mode, [i \in 1..o.m |-> o.e[i][1]], ty.L)
    \o WArray(mode, ty, [i \in 1..o.m |-> o.e[i][2]])

DigBytes(mode, ty, o) == DigHeader \o CsrBytes(mode, ty, o.in) \o CsrBytes(mode, ty, o.out)

TenBytes(mode, ty, o) ==
    TenHeader \o <<ty.L, ty.O>> \o (IF ty.W = "n" THEN << >> ELSE <<ty.Wb>>)
    \o SizeBytes(o.ord, ty.O) \o SizeBytes(o.m, ty.O)
    \o Flat([i \in 1..(o.m * o.ord) |->
                IntBytes(mode, o.e[((i - 1) \div o.ord) + 1][((i - 1) % o.ord) + 1], ty.L)], ty.L)
    \o WArray(mode, ty, [i \in 1..o.m |-> o.e[i][o.ord + 1]])

(***************************************************************************)
(* Can a file be loaded as the binary form of an object of type ty?  The   *)
(* parser mirrors the layout; a length of -1 stands for "refuse".          *)
(***************************************************************************)
\* An unsigned size field of b bytes at position p (1-based); big if it
\* cannot be the size of anything that fits a file of the lengths used here
SizeAt(t, p, b) ==
    IF \E j \in 3..(b-1) : t[p + j] # 0 THEN 16777216
    ELSE t[p] + (IF b > 1 THEN 256 * t[p+1] ELSE 0) + (IF b > 2 THEN 65536 * t[p+2] ELSE 0)

WLen(ty, m) == IF ty.W = "n" THEN 0 ELSE m * ty.Wb

\* The length of the coo, csr, tensor that starts at position p, or -1
CooLen(t, p, ty) ==
    LET hd == Len(CooHeader) + 2
        fixed == hd + 3 * ty.L + ty.O
    IN  IF Len(t) - p + 1 < fixed THEN -1
        ELSE IF SubSeq(t, p, p + hd - 1) # CooHeader \o <<ty.L, ty.O>> THEN -1
        ELSE LET m == SizeAt(t, p + hd + 3 * ty.L, ty.O)
             IN  IF m > Len(t) THEN -1
                 ELSE LET len == fixed + 2 * m * ty.L + WLen(ty, m)
                      IN  IF Len(t) - p + 1 < len THEN -1 ELSE len

CsrLen(t, p, ty) ==
    LET hd == Len(CsrHeader) + 2
        fixed == hd + 3 * ty.L + ty.O
    IN  IF Len(t) - p + 1 < fixed THEN -1
        ELSE IF SubSeq(t, p, p + hd - 1) # CsrHeader \o <<ty.L, ty.O>> THEN -1
        ELSE LET n0 == SizeAt(t, p + hd, ty.L)
                 m == SizeAt(t, p + hd + ty.L, ty.O)
                 nr == SizeAt(t, p + hd + ty.L + ty.O, ty.L)
                 n == IF nr > n0 THEN nr ELSE n0
             IN  IF m > Len(t) \/ n > Len(t) THEN -1
                 ELSE LET len == fixed + (n + 1) * ty.O + m * ty.L + WLen(ty, m)
                      IN  IF Len(t) - p + 1 < len THEN -1 ELSE len

\* The row starts of the csr at position p delimit its rows
CsrGood(t, p, ty) ==
    LET q == p + Len(CsrHeader) + 2
        n0 == SizeAt(t, q, ty.L)
        m == SizeAt(t, q + ty.L, ty.O)
        nr == SizeAt(t, q + ty.L + ty.O, ty.L)
        n == IF nr > n0 THEN nr ELSE n0
        off == [i \in 0..n |-> SizeAt(t, q + 3 * ty.L + ty.O + i * ty.O, ty.O)]
    IN  /\ off[0] = 0
        /\ off[n] = m
        /\ \A i \in 1..n : off[i-1] <= off[i]

\* The length of the csr at position p if it can be loaded, or -1
CsrFits(t, p, ty) ==
    LET l == CsrLen(t, p, ty)
    IN  IF l = -1 THEN -1 ELSE IF CsrGood(t, p, ty) THEN l ELSE -1

DigLen(t, ty) ==
    LET h == Len(DigHeader)
    IN  IF ~StartsWith(t, DigHeader) THEN -1
        ELSE LET a == CsrFits(t, h + 1, ty)
             IN  IF a = -1 THEN -1
                 ELSE LET b == CsrFits(t, h + a + 1, ty)
                      IN  IF b = -1 THEN -1 ELSE h + a + b

TenLen(t, ty) ==
    LET h == TenHeader \o <<ty.L, ty.O>> \o (IF ty.W = "n" THEN << >> ELSE <<ty.Wb>>)
        fixed == Len(h) + 2 * ty.O
    IN  IF Len(t) < fixed THEN -1
        ELSE IF SubSeq(t, 1, Len(h)) # h THEN -1
        ELSE LET o == SizeAt(t, Len(h) + 1, ty.O)
                 m == SizeAt(t, Len(h) + ty.O + 1, ty.O)
             IN  IF m = 0 THEN fixed
                 ELSE IF o = 0 THEN -2                 \* no labels: not a tensor
                 ELSE IF o > Len(t) \/ m > Len(t) \/ m * o > Len(t) THEN -1
                 ELSE LET len == fixed + m * o * ty.L + WLen(ty, m)
                      IN  IF Len(t) < len THEN -1 ELSE len

(***************************************************************************)
(* Reading back: the object that the bytes from position p on encode       *)
(***************************************************************************)
Beyond == 2100000000           \* stands for all larger numbers in records

DecInt(mode, t, p, b) ==
    IF mode = "raw" THEN SubSeq(t, p, p + b - 1)
    ELSE IF b > 2 /\ (t[p+3] >= 125 \/ \E j \in 4..(b-1) : t[p+j] # 0) THEN Beyond
    ELSE t[p] + (IF b > 1 THEN 256 * t[p+1] ELSE 0)
              + (IF b > 2 THEN 65536 * t[p+2] + 16777216 * t[p+3] ELSE 0)

FloatVal(t, p, b) ==
    LET x == IF b = 4 THEN (t[p+3] % 128) * 2 + t[p+2] \div 128
             ELSE (t[p+7] % 128) * 16 + t[p+6] \div 16
        f == IF b = 4 THEN 8388608 + (t[p+2] % 128) * 65536 + t[p+1] * 256 + t[p]
             ELSE (1048576 + (t[p+6] % 16) * 65536 + t[p+5] * 256 + t[p+4]) * 256 + t[p+3]
        w == IF b = 4 THEN 23 ELSE 28
        e == IF b = 4 THEN x - 121 ELSE x - 1017
        v == IF e < 0 THEN 0 ELSE IF e <= w THEN f \div Pow2(w - e) ELSE f * Pow2(e - w)
    IN  IF t[p+b-1] >= 128 THEN -v ELSE v

DecW(mode, ty, t, p) ==
    IF mode = "raw" THEN SubSeq(t, p, p + ty.Wb - 1)
    ELSE CASE ty.W = "u" -> DecInt(mode, t, p, ty.Wb)
           [] ty.W = "f" -> FloatVal(t, p, ty.Wb)
           [] ty.W = "i" ->
                IF t[p + ty.Wb - 1] < 128 THEN DecInt(mode, t, p, ty.Wb)
                ELSE -1 - DecInt(mode, [i \in p..(p + ty.Wb - 1) |-> 255 - t[i]], p, ty.Wb)

WTail(mode, ty, t, p, i) ==         \* << >> or the weight of element i (from 1)
    IF ty.W = "n" THEN << >> ELSE <<DecW(mode, ty, t, p + (i - 1) * ty.Wb)>>

DecCoo(mode, t, p, ty) ==
    LET q == p + Len(CooHeader) + 2
        m == SizeAt(t, q + 3 * ty.L, ty.O)
        x == q + 3 * ty.L + ty.O
        y == x + m * ty.L
        w == y + m * ty.L
    IN  [k |-> "coo", n |-> DecInt(mode, t, q + 2 * ty.L, ty.L),
         nr |-> DecInt(mode, t, q, ty.L), nc |-> DecInt(mode, t, q + ty.L, ty.L), m |-> m,
         e |-> [i \in 1..m |-> <<DecInt(mode, t, x + (i-1) * ty.L, ty.L),
                                 DecInt(mode, t, y + (i-1) * ty.L, ty.L)>>
                               \o WTail(mode, ty, t, w, i)]]

DecCsr(mode, t, p, ty) ==
    LET q == p + Len(CsrHeader) + 2
        n0 == SizeAt(t, q, ty.L)
        m == SizeAt(t, q + ty.L, ty.O)
        nr == SizeAt(t, q + ty.L + ty.O, ty.L)
        n == IF nr > n0 THEN nr ELSE n0
        o == q + 3 * ty.L + ty.O
        x == o + (n + 1) * ty.O
        w == x + m * ty.L
    IN  [k |-> "csr", n |-> DecInt(mode, t, q, ty.L),
         nr |-> DecInt(mode, t, q + ty.L + ty.O, ty.L),
         nc |-> DecInt(mode, t, q + 2 * ty.L + ty.O, ty.L), m |-> m,
         off |-> [i \in 1..(n+1) |-> DecInt(mode, t, o + (i-1) * ty.O, ty.O)],
         e |-> [i \in 1..m |-> <<DecInt(mode, t, x + (i-1) * ty.L, ty.L)>>
                               \o WTail(mode, ty, t, w, i)]]

DecDig(mode, t, ty) ==
    LET h == Len(DigHeader)
        a == DecCsr(mode, t, h + 1, ty)
        b == DecCsr(mode, t, h + 1 + CsrLen(t, h + 1, ty), ty)
    IN  [k |-> "dig", n |-> b.n, nr |-> b.nr, nc |-> b.nc, m |-> b.m, out |-> b, in |-> a]

DecTen(mode, t, ty) ==
    LET q == Len(TenHeader) + 3 + (IF ty.W = "n" THEN 0 ELSE 1)
        o == SizeAt(t, q, ty.O)
        m == SizeAt(t, q + ty.O, ty.O)
        c == q + 2 * ty.O
        w == c + m * o * ty.L
    IN  [k |-> "ten", ord |-> o, m |-> m,
         e |-> [i \in 1..m |->
                 [d \in 1..o |-> DecInt(mode, t, c + ((i-1) * o + d - 1) * ty.L, ty.L)]
                 \o WTail(mode, ty, t, w, i)]]

(***************************************************************************)
(* Type detection                                                          *)
(***************************************************************************)
MtxExt == <<46, 109, 116, 120>>                  \* .mtx
GraphExt == <<46, 103, 114, 97, 112, 104>>       \* .graph

Detect(name, t) ==
    IF StartsWith(t, CooHeader) THEN "PIGO_COO_BIN"
    ELSE IF StartsWith(t, CsrHeader) THEN "PIGO_CSR_BIN"
    ELSE IF StartsWith(t, DigHeader) THEN "PIGO_DIGRAPH_BIN"
    ELSE IF StartsWith(t, TenHeader) THEN "PIGO_TENSOR_BIN"
    ELSE IF StartsWith(t, PigoPrefix) THEN "REFUSED"
    ELSE IF EndsWith(name, MtxExt) THEN "MATRIX_MARKET"
    ELSE IF EndsWith(name, GraphExt) THEN "GRAPH"
    ELSE "EDGE_LIST"

=============================================================================
