-------------------------------- MODULE OmpMem --------------------------------
(***************************************************************************)
(* Memory and the OpenMP execution model.                                  *)
(*                                                                         *)
(* A state machine for one call into the library: teams of threads fork    *)
(* and join, pass barriers, take and give back locks (critical sections,   *)
(* ordering atomics), and between those points read and write byte ranges  *)
(* of objects.  What happens before what is kept as vector clocks.         *)
(*                                                                         *)
(* A behaviour is allowed when every access lies within a live object, no  *)
(* two accesses to the same byte of which one is a write and not both are  *)
(* atomic are unordered, and nothing is released while, or before, others  *)
(* may use it.                                                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES
    k, i,       \* the trace and how much of it has happened
    vc,         \* vc[t][u]: what thread t knows of thread u
    lk,         \* what was known when lock l was last given back
    hist,       \* the accesses others may still be unordered with
    dead,       \* released objects
    why         \* "" or the reason for which the last event is not allowed

vars == <<k, i, vc, lk, hist, dead, why>>

T == Traces[k]
Empty == << >>

\* Clocks of a team of n that has just been brought into step; threads are 0..n-1
Fresh(n) == [t \in 0..(n - 1) |-> [u \in 0..(n - 1) |-> IF u = t THEN 1 ELSE 0]]
Join2(a, b) == [u \in DOMAIN a |-> IF a[u] > b[u] THEN a[u] ELSE b[u]]

\* An access: <<object, kind, first byte, byte after the last>>, where the kind is
\* 0 for a read, 1 for a write, 2 for an atomic read, 3 for an atomic write
Writes(a) == a[2] \in {1, 3}
Atomic(a) == a[2] \in {2, 3}
Clash(a, b) ==
    /\ a[1] = b[1] /\ a[3] < b[4] /\ b[3] < a[4]
    /\ Writes(a) \/ Writes(b)
    /\ ~(Atomic(a) /\ Atomic(b))

\* Did thread t get to know what segment h did
Ordered(h, t) == h.t = t \/ h.c <= vc[t][h.t]

Outside(a) == a[1] \in dead \/ a[4] > T.size[a[1]]

Check(t, as) ==
    IF \E j \in DOMAIN as : Outside(as[j]) THEN "bounds"
    ELSE IF \E h \in hist : /\ ~Ordered(h, t)
                            /\ \E j \in DOMAIN as : \E m \in DOMAIN h.a : Clash(as[j], h.a[m])
    THEN "race"
    ELSE ""

Init ==
    /\ k \in 1..Len(Traces)
    /\ i = 0 /\ vc = Fresh(1) /\ lk = << >> /\ hist = {} /\ dead = {} /\ why = ""

\* Everybody is in step again
InStep(n) == vc' = Fresh(n) /\ hist' = {} /\ lk' = << >>

Fork(n) == InStep(n) /\ why' = "" /\ UNCHANGED dead
Barrier == InStep(Cardinality(DOMAIN vc)) /\ why' = "" /\ UNCHANGED dead
JoinTeam == InStep(1) /\ why' = "" /\ UNCHANGED dead

Segment(t, as) ==
    /\ why' = Check(t, as)
    /\ hist' = IF Cardinality(DOMAIN vc) = 1 THEN {} ELSE hist \union {[t |-> t, c |-> vc[t][t], a |-> as]}
    /\ UNCHANGED <<vc, lk, dead>>

Acquire(t, l) ==
    /\ vc' = IF l \in DOMAIN lk THEN [vc EXCEPT ![t] = Join2(vc[t], lk[l])] ELSE vc
    /\ why' = "" /\ UNCHANGED <<lk, hist, dead>>

Release(t, l) ==
    /\ lk' = (l :> (IF l \in DOMAIN lk THEN Join2(vc[t], lk[l]) ELSE vc[t])) @@ lk
    /\ vc' = [vc EXCEPT ![t][t] = @ + 1]
    /\ why' = "" /\ UNCHANGED <<hist, dead>>

\* Releasing an object is a write to all of it, after which there is none
Free(t, o) ==
    LET as == << <<o, 1, 0, T.size[o]>> >> IN
    /\ why' = IF o \in dead \/ T.size[o] = 0 THEN "bounds" ELSE Check(t, as)
    /\ dead' = dead \union {o}
    /\ hist' = IF Cardinality(DOMAIN vc) = 1 THEN {} ELSE hist \union {[t |-> t, c |-> vc[t][t], a |-> as]}
    /\ UNCHANGED <<vc, lk>>

Next ==
    /\ why = "" /\ i < Len(T.ev)
    /\ i' = i + 1 /\ k' = k
    /\ LET e == T.ev[i + 1] IN
       CASE e[1] = "fork" -> Fork(e[2])
         [] e[1] = "bar"  -> Barrier
         [] e[1] = "join" -> JoinTeam
         [] e[1] = "seg"  -> Segment(e[2], e[3])
         [] e[1] = "acq"  -> Acquire(e[2], e[3])
         [] e[1] = "rel"  -> Release(e[2], e[3])
         [] e[1] = "free" -> Free(e[2], e[3])
    /\ why' = "" \/ PrintT(<<"REJECT", T.id, i + 1, why'>>)

Spec == Init /\ [][Next]_vars
View == <<k, i>>
=============================================================================
