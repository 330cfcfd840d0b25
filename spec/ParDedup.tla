-------------------------------- MODULE ParDedup -------------------------------
(***************************************************************************)
(* The parallel removal of duplicates: rows are sorted and their distinct  *)
(* elements counted by whichever thread takes them, the new row starts are *)
(* sums over shares of the rows, and rows are copied by whichever thread   *)
(* takes them.  The result is DedupOf (Ops), whoever does what and when;   *)
(* no element is stored twice or outside.                                  *)
(***************************************************************************)
EXTENDS Par

VARIABLES c, T, pc, rows, busy, deg, off, out, bad
vars == <<c, T, pc, rows, busy, deg, off, out, bad>>

R == EnvInt("ROWS", 2)
N == EnvInt("LEN", 3)

\* Rows of weighted elements, sorted already
Row0 == {s \in Strings({<<0, 1>>, <<0, 2>>, <<1, 1>>}, N) :
            \A i \in 1..(Len(s) - 1) : s[i] = s[i+1] \/ Less1(s[i], s[i+1])}
Joined(rs) == FoldLeft(LAMBDA a, b : a \o b, << >>, rs)
FromRows(rs) == Csr(R, R, 2, Offsets([v \in 1..R |-> Len(rs[v])]), Joined(rs))

Distinct(r) == Sorted({i \in 1..Len(r) : i = 1 \/ r[i][1] # r[i-1][1]})

Init ==
    /\ \E rs \in [1..R -> Row0] : c = FromRows(rs)
    /\ T \in 1..MaxT
    /\ pc = "count"
    /\ rows = 0..(R - 1)                 \* not yet taken
    /\ busy = [k \in Threads(T) |-> -1]
    /\ deg = [v \in 0..(R - 1) |-> 0]
    /\ off = << >> /\ out = << >> /\ bad = FALSE

\* A thread takes the next row (the loops are dynamic) ...
Get(k) ==
    /\ pc \in {"count", "copy"} /\ busy[k] = -1 /\ rows # {}
    /\ busy' = [busy EXCEPT ![k] = Min(rows)]
    /\ rows' = rows \ {Min(rows)}
    /\ UNCHANGED <<c, T, pc, deg, off, out, bad>>

\* ... and works on it
Work(k) ==
    /\ busy[k] # -1
    /\ LET v == busy[k]
           d == Distinct(Row(c, v))
       IN  IF pc = "count"
           THEN deg' = [deg EXCEPT ![v] = Len(d)] /\ UNCHANGED <<out, bad>>
           ELSE /\ out' = [j \in 1..Len(out) |->
                            IF j > off[v] /\ j <= off[v] + Len(d) THEN Row(c, v)[d[j - off[v]]] ELSE out[j]]
                /\ bad' = (bad \/ \E j \in 1..Len(d) : off[v] + j > Len(out) \/ out[off[v] + j] # <<-1>>)
                /\ UNCHANGED deg
    /\ busy' = [busy EXCEPT ![k] = -1]
    /\ UNCHANGED <<c, T, pc, rows, off>>

Idle == rows = {} /\ \A k \in Threads(T) : busy[k] = -1
ShareSum(k) == FoldLeft(LAMBDA a, v : a + deg[v], 0,
                   [i \in 1..(To(R, T, k) - From(R, T, k)) |-> From(R, T, k) + i - 1])
StartOf(v) ==
    LET k == CHOOSE j \in Threads(T) : From(R, T, j) <= v /\ v < To(R, T, j)
    IN  FoldLeft(LAMBDA a, j : a + ShareSum(j), 0, [i \in 1..k |-> i - 1])
        + FoldLeft(LAMBDA a, u : a + deg[u], 0, [i \in 1..(v - From(R, T, k)) |-> From(R, T, k) + i - 1])
NewM == FoldLeft(LAMBDA a, v : a + deg[v], 0, [i \in 1..R |-> i - 1])
Starts ==
    /\ pc = "count" /\ Idle
    /\ pc' = "copy"
    /\ rows' = 0..(R - 1)
    /\ off' = [v \in 0..R |-> IF v = R THEN NewM ELSE StartOf(v)]
    /\ out' = [j \in 1..NewM |-> <<-1>>]
    /\ UNCHANGED <<c, T, busy, deg, bad>>
End == pc = "copy" /\ Idle /\ pc' = "done" /\ UNCHANGED <<c, T, rows, busy, deg, off, out, bad>>

Next == (\E k \in Threads(T) : Get(k) \/ Work(k)) \/ Starts \/ End

Spec == Init /\ [][Next]_vars

Disjoint == ~bad
Right == pc = "done" =>
    Csr(R, R, 2, [i \in 1..(R + 1) |-> off[i - 1]], out) = DedupOf(c)

\* What is left has no duplicates, and nothing is left to remove
Again == pc = "done" => DedupOf(DedupOf(c)) = DedupOf(c)

=============================================================================
