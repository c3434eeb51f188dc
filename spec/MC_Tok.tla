------------------------------- MODULE MC_Tok -------------------------------
(***************************************************************************)
(* Every text that is a sequence of at most Depth tokens of an alphabet.   *)
(* The notation reads each as one value or rejects it; each is emitted for *)
(* the implementation with that verdict.                                   *)
(***************************************************************************)
EXTENDS KLayout, KParse, Json, IOUtils
CONSTANTS Tokens, Depth
Emit == IOEnv.KV_EMIT

(* punctuation and primitives *)
Marks == {"(", ")", "[", "]", "{", "}", ",", ":", "=", "<", ">", "\n", " ", "a", "1", "\"s\"", "true", "str|", "\r\n"}
(* verbose notation *)
Rows == {"a = ", "1", "\n", "[a]\n", "[[a]]\n", "    ", ":b\n", "c: ", "["}
(* one-line and concise notation *)
Lists == {"(", ")", "[", "]", "{", "}", ", ", "1: ", "a = ", "2", "\n"}
(* whole entries: repeated fields, keys and blocks *)
Pairs == {"(", ")", "[", "]", "{", "}", ", ", "1: 2", "1: 3", "a = 1", "a = 2", "\n"}
Blocks == {"a = 1\n", "a = 2\n", "[a]\n", "[b:I]\n", "    c = 4\n", "[[a]]\n", "[[a:J]]\n", "[[a]]\n1: 2\n", "[[a:J]]\n1: 3\n",
           "[[a]]\n5\n", "[[a:I]]\n4: 2\n", ":K\n", "    :L\n", "    [[a]]\n    6\n", "    1: 7\n", "    a: 8\n", "1:\n"}
(* what counts as an indent, a blank line, the end of a line *)
Blanks == {"a = 1\n", "[b]\n", "[[c]]\n", " ", "   ", "\t", "    ", "\n", "\r", "1\n", "1: "}
(* lists in lists, or the head of a block *)
Nests == {"[[", "[", "]]", "]", "1", "\n", "a", ", "}
Names == {"a", "<", ">", " ", "(", ")", "1", "true", "\n", ":", "[", "]", "_-", "= "}

VARIABLES s, d
vars == <<s, d>>
Init == s = "" /\ d = 0
Next == d < Depth /\ d' = d + 1 /\ \E t \in Tokens : s' = s \o t
Spec == Init /\ [][Next]_vars
View == s

Doc == Parse(s, PlainX(s))
Verdict == Doc.r \in {"ok", "err"}

Vector ==
    CASE Emit \in {"K07", "K24"} -> [in |-> [s |-> s, bw |-> [i \in 1..Len(s) |-> 1]]]
      [] Emit = "K09" -> [in |-> [s |-> s], exp |-> IF Doc.r = "ok" THEN [r |-> "ok", v |-> Doc.v] ELSE [r |-> "err"]]
Emitted == Emit = "" \/ PrintT(ToJson(Vector))
=============================================================================
