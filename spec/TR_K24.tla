------------------------------- MODULE TR_K24 -------------------------------
(***************************************************************************)
(* A text that was refused, the traces of the error (a trace with how it   *)
(* shows itself), the backtrace and the debug form.                        *)
(***************************************************************************)
EXTENDS KReport, KTrace
At(s, i) == SubSeq(s, i, i)
Idx(n) == [i \in 1..n |-> i]
LineStarts(s) == <<1>> \o SelectSeq(Idx(Len(s)), LAMBDA i : i > 1 /\ At(s, i - 1) = "\n")
(* byte offset of the boundary before character i, i = Len+1 at the end *)
Offsets(bw) == FoldLeft(LAMBDA a, x : Append(a, a[Len(a)] + x), <<0>>, bw)

(* where a trace points: the character at that offset (the second half of a wide one has width 0), 0 if there is none *)
Place(s, st, off, t) ==
    IF t.line \notin 1..Len(st) THEN 0
    ELSE LET q == {i \in st[t.line]..Len(s) + 1 : off[i] - off[st[t.line]] + 1 = t.col}
         IN IF q = {} THEN 0 ELSE CHOOSE i \in q : \A j \in q : j <= i
(* the character there, "" at the end of the line *)
Found(s, bw, i) ==
    IF i > Len(s) \/ At(s, i) = "\n" \/ (At(s, i) = "\r" /\ i < Len(s) /\ At(s, i + 1) = "\n") THEN ""
    ELSE IF i < Len(s) /\ bw[i + 1] = 0 THEN SubSeq(s, i, i + 1) ELSE At(s, i)

Ok(e) ==
    \/ e.obs.r = "ok"
    \/ /\ e.obs.r = "err"
       /\ LET s == e.in.s
              T == e.obs.traces
              st == LineStarts(s)
              off == Offsets(e.in.bw)
              at == [i \in 1..Len(T) |-> Place(s, st, off, T[i])]
          IN /\ e.obs.bt = Report(T) /\ e.obs.dbg = e.obs.bt
             /\ \A i \in 1..Len(T) : T[i].show = Shown(T[i])
             /\ \A i \in 1..Len(T) :
                  IF s = "" THEN Message(T[i].msg, TRUE, "")
                  ELSE at[i] > 0 /\ Message(T[i].msg, FALSE, Found(s, e.in.bw, at[i]))
             (* innermost first *)
             /\ \A i \in 1..Len(T) - 1 : at[i + 1] <= at[i]
Conforms == Events[l].bad \/ Ok(Events[l])
Rejects == Events[l].bad => ~Ok(Events[l])
=============================================================================
