------------------------------- MODULE MC_Edit -------------------------------
(***************************************************************************)
(* Small documents, each with one character put in, replaced or taken out: *)
(* every place, every printable character of ASCII and a few others.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Json, IOUtils, TLC
CONSTANT Docs
Emit == IOEnv.KV_EMIT

QDocs == <<
    "a = 1", "[a]\n    b = 1\n", "[[a]]\n1\n2", "[[a]]\n1: 2", ":K\na = 1", "[a:K]\n    b = 1", "[[a:K]]\n1",
    "(a = 1, b = 2)", "F(1, 2)", "<i> 1", "[1, 2]", "{ 1: 2, 3: 4 }", "\"s\"", "str#s#", "b91'AB'", "-1.5e3",
    "(\n  1\n  2\n)", "[\n1\n2\n]\n", "{\n1: 2\n}", "true", "F(a = [1])", "()", "inf", "<f> \"s\"", "L [1]", "M { 1: 2 }",
    "a = 1\r\nb = 2\r\n", "[a]\n\t[b]\n\t\tc = 1", "[[a]]\n1:\n    b = 2\n">>
TDocs == QDocs \o <<
    "[[a]]\n    b = 1\n[[a]]\n    b = 2", "a = 1\n[b]\n    c = 2\n    [[d]]\n    3\n", "(\n    a = (b = 1)\n    c = [2]\n)",
    "[[a]]\n(1, 2): <i> 3\n[[a]]\nstr'x': b91'AB'\n", ":K\n[a:L]\n    :M\n    b = N()\n", "a = str|x = [1|\nb = \"(\"",
    "F (G (1), H [2], { \"k\": () })", "{\n  [1]: (a = 1)\n  2: F(\n    1\n    )\n}", "[a]\n    [[b:J]]\n    1:\n        c = 2\n">>

Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Signs == Printable \o "\t\n\r\f"

VARIABLES n, i
vars == <<n, i>>
Init == n \in 1..Len(Docs) /\ i = 1
Next == i <= Len(Docs[n]) /\ i' = i + 1 /\ n' = n
Spec == Init /\ [][Next]_vars

Put(s, k, c) == SubSeq(s, 1, k - 1) \o c \o SubSeq(s, k, Len(s))
Out(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Sign(j) == SubSeq(Signs, j, j)
Edits ==
    LET s == Docs[n] IN
    {Put(s, i, Sign(j)) : j \in 1..Len(Signs)}
    \union (IF i > Len(s) THEN {s} ELSE {Out(s, i)} \union {Put(Out(s, i), i, Sign(j)) : j \in 1..Len(Signs)})
Near == \A s \in Edits : Len(s) - Len(Docs[n]) \in -1..1
Vector(s) == IF Emit = "K09" THEN [in |-> [s |-> s, lit |-> "apart"]]
             ELSE [in |-> [s |-> s, bw |-> [j \in 1..Len(s) |-> 1]]]
Emitted == Emit = "" \/ \A s \in Edits : PrintT(ToJson(Vector(s)))
=============================================================================
