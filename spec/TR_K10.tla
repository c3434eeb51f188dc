------------------------------- MODULE TR_K10 -------------------------------
(***************************************************************************)
(* The first number of the list compared with each, the list sorted, sets  *)
(* of the list, and the first number compared with primitives.             *)
(***************************************************************************)
EXTENDS KNumber, KTrace, FiniteSets
Cell(a, b, o) ==
    LET c == NumCmp(a, b)
    IN /\ o.cmp = c /\ o.rev = -c /\ o.pc = c
       /\ o.eq = (c = 0) /\ o.ne = (c # 0)
       /\ o.lt = (c < 0) /\ o.le = (c <= 0) /\ o.gt = (c > 0) /\ o.ge = (c >= 0)
       /\ (c = 0 => o.heq)
Ok(e) ==
    LET L == e.in.l
        O == e.obs
        vals == {L[i].v : i \in 1..Len(L)}
        count(q, v) == Cardinality({i \in 1..Len(q) : q[i] = v})
    IN /\ O.r = "ok"
       /\ Len(O.row) = Len(L)
       /\ \A i \in 1..Len(L) : Cell(L[1].v, L[i].v, O.row[i])
       /\ Len(O.sorted) = Len(L)
       /\ \A i \in 1..Len(L) - 1 : NumCmp(O.sorted[i], O.sorted[i + 1]) <= 0
       /\ {O.sorted[i] : i \in 1..Len(L)} = vals
       /\ O.bt = Cardinality(vals)
       /\ O.hs = Cardinality(vals)
       /\ \A i \in 1..Len(e.in.pr) :
            LET c == NumCmp(L[1].v, e.in.pr[i].v)
            IN O.prim[i].eq = (c = 0) /\ O.prim[i].pc = c
Conforms == Events[l].bad \/ Ok(Events[l])
Rejects == Events[l].bad => ~Ok(Events[l])
=============================================================================
