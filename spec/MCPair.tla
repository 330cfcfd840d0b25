--------------------------------- MODULE MCPair --------------------------------
(***************************************************************************)
(* Operations that run at the same time.  A call reads some objects and    *)
(* files and changes others; two calls that do not change what the other   *)
(* uses may run at once, and PIGO has no state of its own that they could   *)
(* share, so each finds what it would have found alone.  Checked here, for *)
(* every pair of such calls from every one of the initial states: both     *)
(* orders end in the same state, and Step allows each call in both - hence *)
(* a recorded concurrent run may be judged as if made in any order.  The   *)
(* pairs are printed, to be run at once on the implementation.             *)
(***************************************************************************)
EXTENDS Pigo, IOUtils

VARIABLES s, a, b, init
vars == <<s, a, b, init>>

Ty == [L |-> 4, Ls |-> FALSE, O |-> 4, W |-> "n", Wb |-> 0, sym |-> FALSE, ut |-> FALSE, sl |-> FALSE]
NoP == [x \in {} |-> None]

Values == <<Coo(3, 3, 3, <<<<0, 1>>, <<2, 0>>>>),
            Coo(2, 2, 2, <<<<1, 1>>, <<1, 0>>, <<0, 1>>, <<1, 0>>>>),
            Coo(4, 4, 4, <<<<3, 3>>>>)>>

\* The calls: what they read and change, objects in capitals
Op(op, d, src, line) == [op |-> op, d |-> d, src |-> src, line |-> line]
Coos == {"A", "B"}
Ops ==
    {Op("copy", d, x, "copy " \o d \o " " \o x) : <<d, x>> \in {<<"A", "B">>, <<"B", "A">>, <<"D", "A">>, <<"E", "A">>, <<"E", "B">>}}
    \cup {Op("asg", d, x, "asg " \o d \o " " \o x) : <<d, x>> \in {<<"A", "B">>, <<"B", "A">>}}
    \cup {Op("tr", d, d, "tr " \o d) : d \in Coos}
    \cup {Op("sort", "C", "C", "sort C")}
    \cup {Op("c2s", d, x, "c2s " \o d \o " " \o x) : <<d, x>> \in {<<"C", "A">>, <<"D", "A">>, <<"E", "A">>, <<"E", "B">>}}
    \cup {Op("s2c", d, "C", "s2c " \o d \o " C 0") : d \in {"A", "D", "E"}}
    \cup {Op("save", f, x, "save " \o x \o " " \o f) : f \in {"f", "g"}, x \in {"A", "B", "C"}}
    \cup {Op("load", d, "f", "load " \o d \o " coo 0 0 f AUTO") : d \in {"A", "D", "E"}}

Changes(o) == {o.d}
Uses(o) == {o.d, o.src}
Apart(x, y) == Changes(x) \cap Uses(y) = {} /\ Changes(y) \cap Uses(x) = {}

FirstCsr == CsrOf(Coo(3, 3, 3, <<<<2, 1>>, <<0, 2>>, <<2, 0>>>>))

Init == /\ init \in (1..Len(Values)) \X (1..Len(Values))
        /\ s = [O |-> ("A" :> Values[init[1]]) @@ ("B" :> Values[init[2]]) @@ ("C" :> FirstCsr),
                F |-> "f" :> [t |-> "file", b |-> CooBytes("int", Ty, Values[init[1]])]]
        /\ a = None /\ b = None

Result(o, S) ==
    CASE o.op \in {"copy", "asg"} -> [S EXCEPT !.O = Put(S.O, o.d, S.O[o.src])]
      [] o.op = "tr" -> [S EXCEPT !.O = Put(S.O, o.d, Transpose(S.O[o.d]))]
      [] o.op = "sort" -> [S EXCEPT !.O = Put(S.O, o.d, SortOf(S.O[o.d]))]
      [] o.op = "c2s" -> [S EXCEPT !.O = Put(S.O, o.d, CsrOf(S.O[o.src]))]
      [] o.op = "s2c" -> [S EXCEPT !.O = Put(S.O, o.d, CooOf(Ty, S.O[o.src]).obj)]
      [] o.op = "save" -> [S EXCEPT !.F = Put(S.F, o.d, [t |-> "file", b |-> BytesOf("int", Ty, S.O[o.src])])]
      [] o.op = "load" -> [S EXCEPT !.O = Put(S.O, o.d, DecCoo("int", S.F[o.src].b, 1, Ty))]

Event(o) ==
    CASE o.op = "save" -> [op |-> o.op, h |-> o.src, fn |-> o.d, ty |-> Ty, err |-> ""]
      [] o.op = "load" -> [op |-> o.op, h |-> o.d, kind |-> "coo", fn |-> o.src, nm |-> <<102>>, ft |-> "AUTO",
                           ty |-> Ty, err |-> ""]
      [] OTHER -> [op |-> o.op, h |-> o.d, src |-> o.src, ty |-> Ty, err |-> ""]

May(o, S, T) == Step("int", Event(o), S.O, S.F, NoP, T.O, T.F, NoP)

FirstCall ==
    /\ a = None
    /\ a' \in Ops
    /\ UNCHANGED <<s, b, init>>
SecondCall ==
    /\ a # None /\ b = None
    /\ b' \in {o \in Ops : Apart(a, o)}
    /\ PrintT("T;" \o ToString(init[1]) \o ";" \o ToString(init[2]) \o ";" \o a.line \o ";" \o b'.line \o ";")
    /\ UNCHANGED <<s, a, init>>
Next == FirstCall \/ SecondCall

Spec == Init /\ [][Next]_vars

Commute ==
    b # None =>
    LET sa == Result(a, s)
        sb == Result(b, s)
        ab == Result(b, sa)
        ba == Result(a, sb)
    IN  /\ ab = ba
        /\ May(a, s, sa) /\ May(b, sa, ab)
        /\ May(b, s, sb) /\ May(a, sb, ba)
        \* and the other call's change cannot be taken for this one's
        /\ ab # sa => ~May(a, s, ab)

=============================================================================
