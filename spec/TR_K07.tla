------------------------------ MODULE TR_K07 ------------------------------
(***************************************************************************)
(* Every parse ends in a value or in an error whose traces lie in the      *)
(* text: there is a character boundary whose line and byte column (from 1) *)
(* are the reported ones, and the reported line text is that line.         *)
(***************************************************************************)
EXTENDS KTree, KTrace

At(s, i) == SubSeq(s, i, i)
(* first character positions of lines; no line starts after a final break *)
Starts(s) == <<1>> \o SelectSeq(Idx(Len(s)), LAMBDA i : i > 1 /\ At(s, i - 1) = "\n")
LineText(s, a) ==
    LET ends == SelectSeq(Idx(Len(s)), LAMBDA i : i >= a /\ At(s, i) = "\n")
        e == IF ends = <<>> THEN Len(s) ELSE ends[1] - 1
        f == IF ends # <<>> /\ e >= a /\ At(s, e) = "\r" THEN e - 1 ELSE e
    IN SubSeq(s, a, f)
(* byte offset of the boundary before character i, i = Len+1 at the end *)
Offsets(bw) == FoldLeft(LAMBDA a, x : Append(a, a[Len(a)] + x), <<0>>, bw)

(* st: line starts, off: byte offsets *)
Located(s, st, off, tr) ==
    IF s = "" THEN tr.line = 0 /\ tr.col = 0
    ELSE /\ tr.line \in 1..Len(st)
         /\ LET a == st[tr.line]
                z == IF tr.line = Len(st) THEN Len(s) + 1 ELSE st[tr.line + 1] - 1
            IN /\ \E i \in a..z : off[i] - off[a] + 1 = tr.col
               /\ tr.ls = LineText(s, a)

AllLocated(e) ==
    LET s == e.in.s
        st == Starts(s)
        off == Offsets(e.in.bw)
        trs == {e.obs.traces[i] : i \in 1..Len(e.obs.traces)}
    IN \A tr \in trs : Located(s, st, off, tr)

Ok(e) ==
    \/ e.obs.r = "ok" /\ e.in.s # ""
    \/ /\ e.obs.r = "err"
       /\ e.obs.n > 0 /\ ~e.obs.empty /\ e.obs.same /\ e.obs.bt
       /\ Len(e.obs.traces) = e.obs.n
       /\ AllLocated(e)
Conforms == Events[l].bad \/ Ok(Events[l])
Rejects == Events[l].bad => ~Ok(Events[l])
=============================================================================
