------------------------------- MODULE MC_Sty -------------------------------
(***************************************************************************)
(* Spelling variants: the text of every formatter state of every small     *)
(* value, respelled in ways that may not change its meaning.               *)
(***************************************************************************)
EXTENDS MC_Fmt
CONSTANT Styles
VARIABLE sty
svars == <<vars, sty>>
SView == <<tr, F, sty>>

AllStyles == {"crlf", "tabs", "trail", "blank", "tight", "airy", "eof", "crlfeof", "str"}
SFamilies == {<<1, 3, {0, 1}>>, <<2, 3, {0, 1}>>, <<3, 3, {0}>>, <<3, 1, {1}>>, <<4, 1, {0}>>}
SFamiliesT == {<<1, 3, {0, 1}>>, <<2, 3, {0, 1, 2, 3}>>, <<3, 3, {0, 1, 2, 3}>>, <<4, 1, {0, 1, 2, 3}>>, <<5, 1, {0}>>}

RECURSIVE Replace(_, _, _, _)
Replace(x, a, b, i) ==
    IF i > Len(x) THEN ""
    ELSE IF i + Len(a) - 1 <= Len(x) /\ SubSeq(x, i, i + Len(a) - 1) = a THEN b \o Replace(x, a, b, i + Len(a))
    ELSE SubSeq(x, i, i) \o Replace(x, a, b, i + 1)

(* leading blanks of every line, four at a time, as tabs *)
RECURSIVE Tabs(_, _, _)
Tabs(x, i, lead) ==
    IF i > Len(x) THEN ""
    ELSE IF lead /\ i + 3 <= Len(x) /\ SubSeq(x, i, i + 3) = "    " THEN "\t" \o Tabs(x, i + 4, TRUE)
    ELSE SubSeq(x, i, i) \o Tabs(x, i + 1, SubSeq(x, i, i) = "\n")

Spelled ==
    CASE sty = "crlf"  -> Replace(T, "\n", "\r\n", 1)
      [] sty = "tabs"  -> Tabs(T, 1, TRUE)
      [] sty = "trail" -> Replace(T, "\n", " \n", 1)
      \* not after a list header, whose entry starts on the next line
      [] sty = "blank" -> IF \E i \in 1..Len(T) : Starts(T, i, "]]\n") THEN Replace(T, "\n\n", "\n \n\n", 1)
                          ELSE Replace(T, "\n", "\n\n", 1)
      [] sty = "tight" -> Replace(Replace(Replace(T, ", ", ",", 1), " = ", "=", 1), ": ", ":", 1)
      [] sty = "airy"  -> Replace(Replace(Replace(T, ", ", " , \t", 1), " = ", "  =  ", 1), ": ", " : ", 1)
      [] sty = "str"   -> Replace(T, "#", "~", 1)
      [] sty = "plain" -> T
      [] sty = "eof"   -> T \o "\n"
      [] sty = "crlfeof" -> Replace(T, "\n", "\r\n", 1) \o "  \r\n"

XOf(s) == [PlainX(s) EXCEPT !.b = [i \in 1..Len(s) + 1 |-> IF Starts(s, i, LBytes.t) THEN LBytes.p ELSE ""]]
SDoc == Parse(Spelled, XOf(Spelled))
Same == SDoc.r = "ok" /\ FullN(SDoc.v) = Shown(N, F, 1)

SInit == Init /\ sty = "plain"
Respell == sty = "plain" /\ sty' \in Styles /\ UNCHANGED vars
SNext == (sty = "plain" /\ Next /\ UNCHANGED sty) \/ Respell
SSpec == SInit /\ [][SNext]_svars
SVector == [in |-> [s |-> Spelled], exp |-> [r |-> "ok", v |-> SDoc.v]]
SEmitted == Emit = "" \/ Spelled = T \/ PrintT(ToJson(SVector))
=============================================================================
