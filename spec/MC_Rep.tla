------------------------------- MODULE MC_Rep -------------------------------
(***************************************************************************)
(* Texts of a few lines, most of them refused somewhere, with wide         *)
(* characters and both line ends; and reports that show their traces       *)
(* without loss.                                                           *)
(***************************************************************************)
EXTENDS KReport, Json, IOUtils
CONSTANTS Most
Emit == IOEnv.KV_EMIT
L(s) == [s |-> s, bw |-> [i \in 1..Len(s) |-> 1]]
Wide(a, c, w, b) == [s |-> a \o c \o b, bw |-> [i \in 1..Len(a) |-> 1] \o w \o [i \in 1..Len(b) |-> 1]]
Lines == {L("a = 1"), L("a = (1"), L("b = [1}"), L("    c = \"x"), L(")"), L("[[d]]"), L(":i"), L("{1: 2, 3}"), L("e = str~x"), L(""),
          Wide("a = (\"", "é", <<2>>, "\" 1)"), Wide("f = ", "中", <<3>>, ""), Wide("[", "😀", <<4, 0>>, "]"), Wide("g = str", "😀", <<4, 0>>, "ab"),
          Wide("(\"", "😀", <<4, 0>>, "\"; 1)")}
Ends == {"\n", "\r\n"}
Cat(x, y) == [s |-> x.s \o y.s, bw |-> x.bw \o y.bw]
RECURSIVE Texts(_)
Texts(n) == IF n = 1 THEN Lines ELSE {Cat(Cat(x, L(e)), y) : x \in Lines, e \in Ends, y \in Texts(n - 1)}
ASSUME TLCSet(1, SetToSeq(UNION {Texts(n) : n \in 1..Most} \union {L(x \o e) : x \in {"", "a", "(1", "[[a]]"}, e \in Ends}))
P == TLCGet(1)
Walkers == 16
VARIABLE n
Init == n \in 1..Walkers
Next == n + Walkers <= Len(P) /\ n' = n + Walkers
Spec == Init /\ [][Next]_n

(* lists of traces that differ have different reports *)
Trace1 == {[line |-> x, col |-> c, ls |-> s, msg |-> m] : x \in {1, 12}, c \in {1, 2}, s \in {"", "#1: a"}, m \in {"in x", "expected '~', found ':'"}}
ASSUME TLCSet(2, SetToSeq({<<a>> : a \in Trace1} \union {<<a, b>> : a, b \in Trace1}))
R == TLCGet(2)
ASSUME TLCSet(3, [i \in 1..Len(R) |-> Report(R[i])])
Q == TLCGet(3)
Lossless == n > Len(Q) \/ \A i \in 1..Len(Q) : Q[i] = Q[n] => i = n
(* a message of either kind is accepted exactly at the places it is true of *)
Messages ==
    /\ Message("expected ')', found ']'", FALSE, "]") /\ ~Message("expected ')', found ']'", FALSE, ")") /\ ~Message("expected ')', found ']'", FALSE, "")
    /\ ~Message("expected ')', found ')'", FALSE, ")") /\ Message("expected ')'" \o SubSeq(End1, 2, Len(End1)), FALSE, "")
Emitted == Emit = "" \/ PrintT(ToJson([in |-> P[n]]))
=============================================================================
