--------------------------------- MODULE Pigo ---------------------------------
(***************************************************************************)
(* The library as a state machine.  The state is                           *)
(*                                                                         *)
(*   O   objects: handle -> abstract object (Formats)                      *)
(*   F   the directory: name -> [t, b], t = "file", "dir" or "open" (being *)
(*       written through a file object), b its bytes                       *)
(*   P   file objects: handle -> [fn, md, pos, size, b]; md "r" or "w",    *)
(*       b the content, -1 for bytes nobody has written yet                *)
(*                                                                         *)
(* A step is an operation with its arguments and outcome, given as record  *)
(* e: e.op is the name of the operation and e.err how it ended: ""         *)
(* (normally), "Error", "NYI" (a library error, not implemented), "std",   *)
(* "other" (foreign exceptions), "CRASH", "HANG".  Step says which         *)
(* outcomes and which next states the properties allow; nothing else is    *)
(* ever allowed.  The same relation serves the exploration of all          *)
(* histories of small instances (MCPigo) and the validation of histories   *)
(* recorded from the code (PigoTrace).                                     *)
(***************************************************************************)
EXTENDS Bin, Prims

(***************************************************************************)
(* Helpers                                                                 *)
(***************************************************************************)
Put(f, h, v) == [x \in DOMAIN f \cup {h} |-> IF x = h THEN v ELSE f[x]]
Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]

SameBut(f, g, S) ==
    /\ DOMAIN f \ S = DOMAIN g \ S
    /\ \A x \in DOMAIN f \ S : f[x] = g[x]

\* A csr without the views a graph offers of it
Core(o) == [k |-> "csr", n |-> o.n, nr |-> o.nr, nc |-> o.nc, m |-> o.m, off |-> o.off, e |-> o.e]

Viewed(mode, o) == ("deg" \in DOMAIN o /\ mode # "raw") => ViewsOk(o)

\* o is expected object x (floating-point weights: as precise as promised)
SameWeights(mode, ty, o, x) ==
    IF mode = "wide" /\ ty.W = "f"
    THEN /\ Len(o.e) = Len(x.e)
         /\ \A i \in 1..Len(x.e) :
              LET a == o.e[i]
                  b == x.e[i]
                  l == Len(b)
              IN  /\ Len(a) = l
                  /\ SubSeq(a, 1, l - 1) = SubSeq(b, 1, l - 1)
                  /\ FpClose(b[l], a[l])
    ELSE o.e = x.e

IsObj(mode, ty, o, x) ==
    /\ o.k = x.k
    /\ CASE x.k = "coo" -> /\ o.n = x.n /\ o.nr = x.nr /\ o.nc = x.nc /\ o.m = x.m
                           /\ SameWeights(mode, ty, o, x)
         [] x.k = "csr" -> Core(o) = x /\ Viewed(mode, o)
         [] x.k = "ten" -> /\ o.ord = x.ord /\ o.m = x.m
                           /\ SameWeights(mode, ty, o, x)
                           /\ "mx" \in DOMAIN x => o.mx = x.mx
         [] x.k = "dig" -> /\ o.n = x.n /\ o.nr = x.nr /\ o.nc = x.nc /\ o.m = x.m
                           /\ Core(o.in) = x.in /\ Core(o.out) = x.out
                           /\ Viewed(mode, o.in) /\ Viewed(mode, o.out)

LibErrors == {"Error", "NYI"}

(***************************************************************************)
(* Loading.  Every definition Load...(.., o, err) says whether outcome err *)
(* with new object o (None if err # "") is allowed.                        *)
(***************************************************************************)
\* How a coordinate source is loaded into a coo: a result as in Formats
PlainTy(ty) == [ty EXCEPT !.sym = FALSE, !.ut = FALSE, !.sl = FALSE]

FileTypeOf(nm, b, ft) == IF ft \in {"AUTO", "NONE"} THEN Detect(nm, b) ELSE ft

RefusedOr(len, x) == IF len < 0 THEN Refused ELSE Ok(x)

CsrSource(mode, ty, et, b) ==
    IF et = "GRAPH" THEN LoadGraph(ty, b)
    ELSE RefusedOr(CsrFits(b, 1, ty), DecCsr(mode, b, 1, ty))

CooSource(mode, ty, et, b) ==
    CASE et = "REFUSED" -> Refused
      [] et = "EDGE_LIST" -> LoadEL(mode, ty, b)
      [] et = "MATRIX_MARKET" -> LoadMM(mode, ty, b)
      [] et = "PIGO_COO_BIN" -> RefusedOr(CooLen(b, 1, ty), DecCoo(mode, b, 1, ty))
      [] et \in {"GRAPH", "PIGO_CSR_BIN"} ->
            LET r == CsrSource(mode, PlainTy(ty), et, b)
                bad == (ty.ut /\ ~ty.sym) \/ ty.sl
            IN  IF r.st # "ok" THEN IF bad THEN [st |-> "lib", obj |-> None] ELSE r
                ELSE IF bad THEN NotImpl
                ELSE IF mode # "int" THEN AnyOutcome
                ELSE CooOf(ty, r.obj)
      [] OTHER -> NotImpl

\* Outcome (err, o) fits result r, where Q(o) compares with the object of r
Fits(r, err, o, Q(_)) ==
    CASE r.st = "ok" -> err = "" /\ Q(o)
      [] r.st = "may" -> err = "Error" \/ (err = "" /\ Q(o))
      [] r.st = "err" -> err = "Error"
      [] r.st = "nyi" -> err = "NYI"
      [] r.st = "lib" -> err \in LibErrors
      [] r.st = "any" -> err \in {"", "Error", "NYI", "std"}
      [] r.st = "ten0" -> err = "" /\ o.k = "ten" /\ o.m = 0 /\ o.e = << >>

LoadFits(mode, kind, ty, nm, b, ft, err, o) ==
    LET et == FileTypeOf(nm, b, ft)
        coo == CooSource(mode, PlainTy(ty), et, b)
        \* a compressed form of a coo exists if its labels are in range
        Of(r, Q(_, _)) ==
            IF r.st = "ok" /\ mode = "int" /\ Huge(r.obj) THEN err \in {"", "Error", "std"}
            ELSE IF r.st \in {"ok", "may"} /\ mode = "int" /\ CsrDefined(r.obj)
               /\ (kind \in {"dig", "mat"} => CsrDefined(Transpose(r.obj)))
            THEN Fits(r, err, o, LAMBDA x : Q(x, r.obj))
            ELSE IF r.st = "ok" /\ mode = "int" THEN err = "Error"
            ELSE IF r.st \in {"ok", "may"} THEN err \in {"", "Error"}
            ELSE Fits(r, err, o, LAMBDA x : TRUE)
        IsC(x, a) == x.k = "csr" /\ IsCsrOf(Core(x), a) /\ Viewed(mode, x)
        IsD(x, a) == /\ x.k = "dig" /\ IsDigOf(x, a)
                     /\ Viewed(mode, x.in) /\ Viewed(mode, x.out)
    IN  CASE kind = "coo" ->
               LET r == CooSource(mode, ty, et, b)
               IN  Fits(r, err, o, LAMBDA x : IsObj(mode, ty, x, r.obj))
          [] kind \in {"csr", "gra"} ->
               CASE et = "REFUSED" -> err = "Error"
                 [] et \in {"EDGE_LIST", "MATRIX_MARKET", "PIGO_COO_BIN"} -> Of(coo, IsC)
                 [] et \in {"GRAPH", "PIGO_CSR_BIN"} ->
                      LET r == CsrSource(mode, ty, et, b)
                      IN  Fits(r, err, o, LAMBDA x : IsObj(mode, ty, x, r.obj))
                 [] OTHER -> err = "NYI"
          [] kind = "dig" ->
               CASE et = "REFUSED" -> err = "Error"
                 [] et = "PIGO_DIGRAPH_BIN" ->
                      LET r == RefusedOr(DigLen(b, ty), DecDig(mode, b, ty))
                      IN  Fits(r, err, o, LAMBDA x : IsObj(mode, ty, x, r.obj))
                 [] OTHER -> Of(coo, IsD)
          [] kind = "mat" ->
               Of(coo, LAMBDA x, a : IsMatOf(x, a))
          [] kind = "ten" ->
               CASE et = "REFUSED" -> err = "Error"
                 [] et = "EDGE_LIST" ->
                      LET r == LoadTen(mode, ty, b)
                      IN  Fits(r, err, o, LAMBDA x : IsObj(mode, ty, x, r.obj))
                 [] et = "PIGO_TENSOR_BIN" ->
                      LET l == TenLen(b, ty)
                          r == IF l = -2 THEN AnyOutcome
                               ELSE RefusedOr(l, DecTen(mode, b, ty))
                      IN  Fits(r, err, o, LAMBDA x : IsObj(mode, ty, x, r.obj))
                 [] OTHER -> err = "NYI"

\* How far a successful load moves the position of the file it reads from
LoadLen(kind, ty, nm, b, ft) ==
    LET et == FileTypeOf(nm, b, ft)
    IN  CASE et = "PIGO_COO_BIN" -> CooLen(b, 1, ty)
          [] et = "PIGO_CSR_BIN" -> CsrLen(b, 1, ty)
          [] et = "PIGO_DIGRAPH_BIN" -> DigLen(b, ty)
          [] et = "PIGO_TENSOR_BIN" -> TenLen(b, ty)
          [] OTHER -> 0

(***************************************************************************)
(* Files                                                                   *)
(***************************************************************************)
Readable(F, fn) == fn \in DOMAIN F /\ F[fn].t = "file" /\ F[fn].b # << >>
\* (names in missing directories are the only ones with a slash)
Creatable(F, fn) == fn \notin {"nodir/x", "nodir/y"} /\ (fn \in DOMAIN F => F[fn].t # "dir")

\* known bytes agree
Agree(known, b) == Len(known) = Len(b) /\ \A i \in 1..Len(b) : known[i] \in {-1, b[i]}

Written(F, F2, fn, Q(_)) ==
    /\ fn \in DOMAIN F2
    /\ F2[fn].t = "file"
    /\ Q(F2[fn].b)
    /\ SameBut(F, F2, {fn})

\* Closing file object p
Closed(F, F2, p) ==
    IF p.md = "r" THEN F2 = F ELSE Written(F, F2, p.fn, LAMBDA b : Agree(p.b, b))

Moved(p, d) == [p EXCEPT !.pos = p.pos + d]
Overwrite(b, pos, v) == [i \in 1..Len(b) |-> IF i > pos /\ i <= pos + Len(v) THEN v[i-pos] ELSE b[i]]

(***************************************************************************)
(* Steps                                                                   *)
(***************************************************************************)
NewObj(e, O, O2, Q(_)) ==
    IF e.err = "" THEN /\ e.h \in DOMAIN O2
                       /\ SameBut(O, O2, {e.h})
                       /\ Q(O2[e.h])
    ELSE O2 = O

LoadStep(mode, e, O, F, P, O2, F2, P2) ==
    /\ F2 = F /\ P2 = P
    /\ IF ~Readable(F, e.fn) THEN e.err = "Error" /\ O2 = O
       ELSE /\ NewObj(e, O, O2, LAMBDA o : TRUE)
            /\ LoadFits(mode, e.kind, e.ty, e.nm, F[e.fn].b, e.ft, e.err,
                        IF e.err = "" THEN O2[e.h] ELSE None)

LoadFStep(mode, e, O, F, P, O2, F2, P2) ==
    LET p == P[e.f]
        b == SubSeq(p.b, p.pos + 1, p.size)
    IN  /\ F2 = F
        /\ NewObj(e, O, O2, LAMBDA o : TRUE)
        /\ LoadFits(mode, e.kind, e.ty, e.nm, b, e.ft, e.err,
                    IF e.err = "" THEN O2[e.h] ELSE None)
        /\ DOMAIN P2 = DOMAIN P
        /\ SameBut(P, P2, {e.f})
        /\ P2[e.f] = [p EXCEPT !.pos = P2[e.f].pos]
        /\ P2[e.f].pos \in p.pos..p.size
        /\ e.err = "" => P2[e.f].pos = p.pos + LoadLen(e.kind, e.ty, e.nm, b, e.ft)

\* The object made by hand with arguments a
Made(e) ==
    LET a == e.a
        w == IF HasW(e.ty) THEN 1 ELSE 0
    IN  IF a = << >>
        THEN CASE e.kind = "coo" -> Coo(0, 0, 0, << >>)
               [] e.kind = "csr" -> Csr(0, 0, 0, <<0>>, << >>)
               [] e.kind = "ten" -> [k |-> "ten", ord |-> 0, m |-> 0, e |-> << >>, mx |-> << >>]
        ELSE CASE e.kind = "coo" ->
                    Coo(a[1], a[2], a[3],
                        [i \in 1..a[4] |-> SubSeq(a, 5 + (i-1) * (2+w), 4 + i * (2+w))])
               [] e.kind = "csr" ->
                    Csr(a[1], a[2], a[3], SubSeq(a, 6, 5 + a[5]),
                        [i \in 1..a[4] |-> SubSeq(a, 6 + a[5] + (i-1) * (1+w), 5 + a[5] + i * (1+w))])
               [] e.kind = "ten" ->
                    LET E == [i \in 1..a[2] |-> SubSeq(a, 3 + (i-1) * (a[1]+w), 2 + i * (a[1]+w))]
                    IN  Ten(a[1], E, MaxLabels("int", a[1], E))

MakeStep(mode, e, O, F, P, O2, F2, P2) ==
    /\ F2 = F /\ P2 = P
    /\ e.err = ""
    /\ NewObj(e, O, O2, LAMBDA o : o.k = e.kind /\ (mode = "int" => IsObj(mode, e.ty, o, Made(e))))

ConvertStep(mode, e, O, F, P, O2, F2, P2) ==
    LET a == O[e.src] IN
    /\ F2 = F /\ P2 = P
    /\ \/ Huge(a) /\ e.err = "std"
       \/ e.err = (IF Fit(e.ty, a) /\ CsrDefined(a) /\ (e.op \in {"c2d", "c2m"} => CsrDefined(Transpose(a)))
                   THEN "" ELSE "Error")
    /\ NewObj(e, O, O2, LAMBDA o :
        CASE e.op = "c2s" -> o.k = "csr" /\ IsCsrOf(Core(o), a)
          [] e.op = "c2g" -> o.k = "csr" /\ IsCsrOf(Core(o), a) /\ "deg" \in DOMAIN o /\ ViewsOk(o)
          [] e.op = "c2d" -> IsDigOf(o, a) /\ ViewsOk(o.in) /\ ViewsOk(o.out)
          [] e.op = "c2m" -> IsMatOf(o, a))

BackStep(mode, e, O, F, P, O2, F2, P2) ==
    LET r == CooOf(e.ty, Core(O[e.src])) IN
    /\ F2 = F /\ P2 = P
    /\ NewObj(e, O, O2, LAMBDA o : TRUE)
    /\ Fits(r, e.err, IF e.err = "" THEN O2[e.h] ELSE None, LAMBDA o : o = r.obj)

CopyStep(mode, e, O, F, P, O2, F2, P2) ==
    /\ F2 = F /\ P2 = P
    /\ e.err = ""
    /\ NewObj(e, O, O2, LAMBDA o : o = O[e.src])

DedupStep(mode, e, O, F, P, O2, F2, P2) ==
    LET c == Core(O[e.src]) IN
    /\ F2 = F /\ P2 = P
    /\ e.src \in DOMAIN O2
    /\ IF e.err = ""
       THEN /\ e.h \in DOMAIN O2
            /\ Fit(e.ty, O2[e.h])
            /\ SameBut(O, O2, {e.h, e.src})
            /\ O2[e.h].k = "csr" /\ Core(O2[e.h]) = DedupOf(c)
       ELSE /\ e.err = "Error" /\ ~Fit(e.ty, DedupOf(c))
            /\ DOMAIN O2 = DOMAIN O
            /\ SameBut(O, O2, {e.src})
    /\ IsSortOf(Core(O2[e.src]), c) /\ Viewed(mode, O2[e.src])
    /\ DOMAIN O2[e.src] = DOMAIN O[e.src]

\* Operations that change one object and nothing else
ChangeStep(mode, e, O, F, P, O2, F2, P2) ==
    LET a == O[e.h]
        d == O2[e.h]
    IN
    /\ F2 = F /\ P2 = P
    /\ e.err = ""
    /\ IF e.op = "drop" THEN O2 = Without(O, {e.h})
       ELSE
       /\ DOMAIN O2 = DOMAIN O
       /\ SameBut(O, O2, {e.h})
       /\ CASE e.op = "sort" -> /\ DOMAIN d = DOMAIN a
                                /\ IsSortOf(Core(d), Core(a)) /\ Viewed(mode, d)
            [] e.op = "tr" -> d = Transpose(a)
            [] e.op = "free" ->
                 (CASE a.k = "coo" -> d.k = "coo" /\ d.m = 0 /\ d.e = << >>
                    [] a.k = "ten" -> d.k = "ten" /\ d.m = 0 /\ d.e = << >>
                    [] OTHER -> d.k = "freed")
            [] e.op = "set" ->
                 (CASE e.fld = "n" -> d = [a EXCEPT !.n = e.val]
                    [] e.fld = "nr" -> d = [a EXCEPT !.nr = e.val]
                    [] e.fld = "nc" -> d = [a EXCEPT !.nc = e.val])
            [] e.op = "poke" ->
                 CASE a.k = "coo" -> d = [a EXCEPT !.e[e.i + 1][e.fld + 1] = e.val]
                   [] a.k = "ten" -> /\ d.e = [a EXCEPT !.e[e.i + 1][e.fld + 1] = e.val].e
                                     /\ d.ord = a.ord /\ d.m = a.m
                                     /\ mode = "int" => d.mx = MaxLabels("int", d.ord, d.e)
                   [] a.k = "csr" -> /\ Core(d) = [Core(a) EXCEPT !.e[e.i + 1][e.fld + 1] = e.val]
                                     /\ Viewed(mode, d)

BytesOf(mode, ty, o) ==
    CASE o.k = "coo" -> CooBytes(mode, ty, o)
      [] o.k = "csr" -> CsrBytes(mode, ty, o)
      [] o.k = "dig" -> DigBytes(mode, ty, o)
      [] o.k = "ten" -> TenBytes(mode, ty, o)

SaveStep(mode, e, O, F, P, O2, F2, P2) ==
    LET a == O[e.h]
        possible == Creatable(F, e.fn) /\ (e.op = "write" => a.m > 0)
    IN
    /\ O2 = O /\ P2 = P
    /\ IF ~possible THEN e.err = "Error" /\ F2 = F
       ELSE /\ e.err = ""
            /\ Written(F, F2, e.fn, LAMBDA b :
                IF e.op = "save" THEN /\ b = BytesOf(mode, e.ty, a)
                                      /\ "ssz" \in DOMAIN e => e.ssz = Len(b)
                ELSE IsTextOf(mode, e.ty.W, IF a.k = "coo" THEN 2 ELSE a.ord, b, a.e))

\* A row format saved into a file object, from its position on.  If there is
\* not enough room, less may have been written, up to the new position.
SaveFStep(mode, e, O, F, P, O2, F2, P2) ==
    LET p == P[e.f]
        B == BytesOf(mode, e.ty, O[e.h])
    IN
    /\ O2 = O /\ F2 = F
    /\ IF Len(B) <= p.size - p.pos
       THEN /\ e.err = "" /\ e.ssz = Len(B)
            /\ P2 = Put(P, e.f, [Moved(p, Len(B)) EXCEPT !.b = Overwrite(p.b, p.pos, B)])
       ELSE /\ e.err = "Error"
            /\ e.pos \in p.pos..p.size
            /\ P2 = Put(P, e.f, [p EXCEPT !.pos = e.pos,
                                          !.b = Overwrite(p.b, p.pos, SubSeq(B, 1, e.pos - p.pos))])
    /\ e.pos = P2[e.f].pos /\ e.size = p.size

LookStep(mode, e, O, F, P, O2, F2, P2) ==
    /\ O2 = O /\ F2 = F /\ P2 = P
    /\ CASE e.op = "find" ->
              /\ e.err = ""
              /\ LET r == Row(O[e.h], e.x)
                 IN  e.ret = (\E j \in 1..Len(r) : r[j][1] = e.y)
         [] e.op = "mx" -> e.err = "" /\ e.ret = O[e.h].mx
         [] e.op = "guess" ->
              IF ~Readable(F, e.fn) THEN e.err = "Error"
              ELSE LET d == Detect(e.nm, F[e.fn].b)
                   IN  IF d = "REFUSED" THEN e.err = "Error" ELSE e.err = "" /\ e.ret = d
         [] e.op = "prim" -> e.err = "" /\ PrimsOk(e)
         [] e.op = "offs" -> e.err = "" /\ e.val = OffsetsOf(e.t, e.end, e.at, e.c)

(***************************************************************************)
(* File objects                                                            *)
(***************************************************************************)
OpenStep(mode, e, O, F, P, O2, F2, P2) ==
    LET good == IF e.md = "r" THEN Readable(F, e.fn) /\ e.n = 0
                ELSE Creatable(F, e.fn) /\ e.n > 0
        p == [fn |-> e.fn, md |-> e.md, pos |-> 0,
              size |-> IF e.md = "r" THEN Len(F[e.fn].b) ELSE e.n,
              b |-> IF e.md = "r" THEN F[e.fn].b ELSE [i \in 1..e.n |-> -1]]
    IN  /\ O2 = O
        /\ IF ~good THEN e.err = "Error" /\ F2 = F /\ P2 = P
           ELSE /\ e.err = ""
                /\ P2 = Put(P, e.f, p)
                /\ e.pos = 0 /\ e.size = p.size
                /\ IF e.md = "r" THEN F2 = F
                   ELSE F2 = Put(F, e.fn, [t |-> "open", b |-> << >>])

FileStep(mode, e, O, F, P, O2, F2, P2) ==
    LET p == P[e.f]
        left == p.size - p.pos
        Done(d) == e.err = "" /\ P2 = Put(P, e.f, Moved(p, d))
        Fail == e.err = "Error" /\ P2 = P
    IN
    /\ O2 = O
    /\ CASE e.op = "fread" ->
              IF e.n <= left
              THEN Done(e.n) /\ Agree(SubSeq(p.b, p.pos + 1, p.pos + e.n), e.val)
              ELSE Fail
         [] e.op = "freads" ->
              IF Len(e.val) > left THEN Fail
              ELSE LET known == SubSeq(p.b, p.pos + 1, p.pos + Len(e.val))
                   IN  IF known = e.val THEN Done(Len(e.val))
                       ELSE IF Agree(known, e.val) THEN Done(Len(e.val)) \/ Fail
                       ELSE Fail
         [] e.op \in {"fwrite", "fwrites", "fpw"} ->
              IF Len(e.val) <= left
              THEN /\ e.err = ""
                   /\ P2 = Put(P, e.f, [Moved(p, Len(e.val)) EXCEPT !.b = Overwrite(p.b, p.pos, e.val)])
              ELSE Fail
         [] e.op = "fpr" ->
              IF e.n <= left
              THEN /\ Done(e.n) /\ Agree(SubSeq(p.b, p.pos + 1, p.pos + e.n), e.val)
                   /\ "over" \notin DOMAIN e
              ELSE Fail
         [] e.op = "fseek" ->
              IF e.n < p.size THEN e.err = "" /\ P2 = Put(P, e.f, [p EXCEPT !.pos = e.n]) ELSE Fail
         [] e.op = "freader" -> Done(0) /\ Agree(SubSeq(p.b, p.pos + 1, p.size), e.val)
         [] e.op = "fguess" ->
              LET d == Detect(e.nm, SubSeq(p.b, p.pos + 1, p.size))
              IN  IF d = "REFUSED" THEN Fail ELSE Done(0) /\ e.ret = d
         [] e.op = "fmove" -> e.err = "" /\ P2 = Put(Without(P, {e.f}), e.to, p)
         [] e.op = "fmasg" -> e.err = "" /\ P2 = IF e.f = e.to THEN P ELSE Put(Without(P, {e.f}), e.to, p)
         [] e.op = "fclose" -> e.err = "" /\ P2 = Without(P, {e.f})
    \* what else happens: a file object that is closed or overwritten is flushed
    /\ CASE e.op = "fclose" -> Closed(F, F2, p)
         [] e.op = "fmasg" /\ e.f # e.to -> Closed(F, F2, P[e.to])
         [] OTHER -> F2 = F
    \* and where the file object reports to be
    /\ e.op # "fclose" =>
        LET q == P2[IF e.op \in {"fmove", "fmasg"} THEN e.to ELSE e.f]
        IN  e.pos = q.pos /\ e.size = q.size

FileOps == {"fread", "freads", "fwrite", "fwrites", "fpw", "fpr", "fseek", "freader",
            "fguess", "fmove", "fmasg", "fclose"}

\* Descriptors and mappings that the process holds are those of file objects
Tidy(e, P2) ==
    "fds" \in DOMAIN e => /\ e.fds <= Cardinality(DOMAIN P2)
                          /\ e.maps <= Cardinality(DOMAIN P2)

(***************************************************************************)
(* Operations that were refused memory or a system call                    *)
(***************************************************************************)
\* The entries of every row, in whatever order
Rearranged(d, c) ==
    /\ Core(d).off = Core(c).off /\ Sizes(Core(d)) = Sizes(Core(c))
    /\ SameBag(Triples(Core(d)), Triples(Core(c)))

\* Such an operation either does all it should (and is judged as ever) or reports
\* the failure.  Then nothing is made, and only what it was to change may have
\* changed: the file it was writing, the order within rows it was sorting; an
\* object that was to be overwritten is as before or empty.
FaultStep(mode, e, O, F, P, O2, F2, P2) ==
    /\ e.err \in {"Error", "NYI", "std"}
    /\ CASE e.op \in {"sort", "dd"} ->
              LET h == IF e.op = "sort" THEN e.h ELSE e.src IN
              /\ DOMAIN O2 = DOMAIN O /\ SameBut(O, O2, {h})
              /\ DOMAIN O2[h] = DOMAIN O[h]
              /\ Rearranged(O2[h], O[h]) /\ Viewed(mode, O2[h])
         [] e.op = "asg" ->
              /\ DOMAIN O2 = DOMAIN O /\ SameBut(O, O2, {e.h})
              /\ O2[e.h] = O[e.h] \/ (O2[e.h].k = O[e.h].k /\ O2[e.h].m = 0 /\ O2[e.h].e = << >>)
         [] OTHER -> O2 = O
    /\ CASE e.op \in {"save", "write"} \/ (e.op = "fopen" /\ e.md = "w") ->
              IF Creatable(F, e.fn) THEN SameBut(F, F2, {e.fn}) ELSE F2 = F
         [] OTHER -> F2 = F
    /\ CASE e.op = "loadf" -> /\ e.pos \in P[e.f].pos..P[e.f].size
                              /\ P2 = Put(P, e.f, [P[e.f] EXCEPT !.pos = e.pos])
         [] e.op = "savef" ->
              LET p == P[e.f]
                  B == BytesOf(mode, e.ty, O[e.h])
              IN  /\ e.pos \in p.pos..Min({p.size, p.pos + Len(B)})
                  /\ P2 = Put(P, e.f, [p EXCEPT !.pos = e.pos,
                                  !.b = Overwrite(p.b, p.pos, SubSeq(B, 1, e.pos - p.pos))])
         [] OTHER -> P2 = P

\* The program frees every object and closes every file: nothing is left, no memory either
LeaveStep(mode, e, O, F, P, O2, F2, P2) ==
    /\ e.err = "" /\ DOMAIN O2 = {} /\ DOMAIN P2 = {}
    /\ DOMAIN F2 = DOMAIN F
    /\ \A f \in DOMAIN F : F2[f] = F[f] \/ (F[f].t = "open" /\ F2[f].t = "file")
    /\ "kept" \in DOMAIN e => e.kept = 0

Denied(e) == "hit" \in DOMAIN e /\ e.err # ""

\* A file is to be made, and the disk has no room for it: the call fails.
\* Text is no longer than this: its numbers, and what separates them.
TextAtMost(mode, a) ==
    FoldLeft(LAMBDA acc, x : acc + FoldLeft(LAMBDA s, v : s + 1 + (IF mode = "int" THEN Len(NumText(mode, v)) + 7 ELSE 350), 0, x), 0, a.e)

FileNeeds(mode, e, O) ==
    CASE e.op = "save" -> Len(BytesOf(mode, e.ty, O[e.h]))
      [] e.op = "write" -> TextAtMost(mode, O[e.h])
      [] e.op = "fopen" -> e.n

NoRoom(mode, e, O) ==
    /\ "room" \in DOMAIN e
    /\ e.err # ""
    /\ ((FileNeeds(mode, e, O) + 4095) \div 4096) * 4096 > e.room

Step(mode, e, O, F, P, O2, F2, P2) ==
    /\ CASE Denied(e) \/ NoRoom(mode, e, O) -> FaultStep(mode, e, O, F, P, O2, F2, P2)
         [] e.op \in {"put", "mkdir", "rm", "cut", "byte", "add", "watch"} ->
                \* the environment
                O2 = O /\ P2 = P /\ e.err = ""
         [] e.op = "leave" -> LeaveStep(mode, e, O, F, P, O2, F2, P2)
         [] e.op = "load" -> LoadStep(mode, e, O, F, P, O2, F2, P2)
         [] e.op = "loadf" -> LoadFStep(mode, e, O, F, P, O2, F2, P2)
         [] e.op = "mk" -> MakeStep(mode, e, O, F, P, O2, F2, P2)
         [] e.op \in {"c2s", "c2g", "c2d", "c2m"} -> ConvertStep(mode, e, O, F, P, O2, F2, P2)
         [] e.op = "s2c" -> BackStep(mode, e, O, F, P, O2, F2, P2)
         [] e.op \in {"copy", "asg"} -> CopyStep(mode, e, O, F, P, O2, F2, P2)
         [] e.op = "dd" -> DedupStep(mode, e, O, F, P, O2, F2, P2)
         [] e.op \in {"sort", "tr", "free", "drop", "set", "poke"} ->
                ChangeStep(mode, e, O, F, P, O2, F2, P2)
         [] e.op \in {"save", "write"} -> SaveStep(mode, e, O, F, P, O2, F2, P2)
         [] e.op = "savef" -> SaveFStep(mode, e, O, F, P, O2, F2, P2)
         [] e.op \in {"find", "mx", "guess", "prim", "offs"} -> LookStep(mode, e, O, F, P, O2, F2, P2)
         [] e.op = "fopen" -> OpenStep(mode, e, O, F, P, O2, F2, P2)
         [] e.op \in FileOps -> FileStep(mode, e, O, F, P, O2, F2, P2)
    /\ Tidy(e, P2)

=============================================================================
