------------------------------ MODULE KReport ------------------------------
(***************************************************************************)
(* The report of a parse error.  A trace is [line, col, ls, msg]: a place  *)
(* (from one; zero for an empty input), the text of its line, a message.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

RECURSIVE Blanks(_)
Blanks(n) == IF n <= 0 THEN "" ELSE IF (n % 2) = 1 THEN " " \o Blanks(n - 1) ELSE LET h == Blanks(n \div 2) IN h \o h
(* place and message, the line, and a caret below the column *)
Shown(t) ==
    "at " \o ToString(t.line) \o ":" \o ToString(t.col) \o " :: " \o t.msg \o "\n" \o t.ls \o "\n"
    \o (IF t.col > 0 THEN Blanks(t.col - 1) \o "^" ELSE "")
(* numbered from zero, a blank line between traces *)
Entry(T, i) == "#" \o ToString(i - 1) \o ": " \o Shown(T[i])
RECURSIVE Joined(_, _)
Joined(T, i) ==
    IF i > Len(T) THEN "" ELSE Entry(T, i) \o (IF i = Len(T) THEN "" ELSE "\n\n" \o Joined(T, i + 1))
Report(T) == Joined(T, 1)

Head1 == "expected '"
End1 == "', reached end of line or end of file first"
Found1 == "', found '"
Empty1 == "', got empty input"
Begins(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Rest(s, n) == SubSeq(s, n + 1, Len(s))
(* found: the character at the trace's place, "" at the end of its line *)
Message(msg, empty, found) ==
    /\ msg # ""
    /\ (Begins(msg, Head1) =>
         \E n \in {1, 2} :            \* units of the expected character
            LET c == SubSeq(msg, Len(Head1) + 1, Len(Head1) + n)
                r == Rest(msg, Len(Head1) + n)
            IN IF empty THEN r = Empty1
               ELSE IF found = "" THEN r = End1
               ELSE r = Found1 \o found \o "'" /\ found # c)
=============================================================================
