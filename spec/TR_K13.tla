------------------------------- MODULE TR_K13 -------------------------------
(***************************************************************************)
(* The first value of the list compared with each (as it is, through       *)
(* borrowed views, owned copies and copies without identities); for        *)
(* w = "all" also a map keyed by the values in turn, looked up by each.    *)
(***************************************************************************)
EXTENDS KOrder, KTrace
Cell(a, b, o) ==
    LET c == Cmp(a, b)
    IN /\ o.cmp = c /\ o.rev = -c /\ o.pc = c /\ o.val = c /\ o.vpc = c
       /\ o.brw = c /\ o.own = c /\ o.bare = c
       /\ o.eq = (c = 0) /\ o.ne = (c # 0) /\ o.veq = (c = 0) /\ o.beq = (c = 0)
       /\ o.lt = (c < 0) /\ o.le = (c <= 0) /\ o.gt = (c > 0) /\ o.ge = (c >= 0)
Map(L, O) ==
    LET n == Len(L)
        C == [i \in 1..n |-> [j \in 1..n |-> Cmp(L[i], L[j])]]
        same(i) == {j \in 1..n : C[i][j] = 0}
        last(i) == CHOOSE j \in same(i) : \A k \in same(i) : k <= j
    IN /\ Len(O.found) = n /\ Len(O.bare) = n
       /\ \A i \in 1..n : O.found[i] = last(i) /\ O.bare[i] = last(i)
       /\ {O.order[i] : i \in 1..Len(O.order)} = {last(i) : i \in 1..n}
       /\ O.len = Len(O.order)
       /\ \A i \in 1..Len(O.order) - 1 : C[O.order[i]][O.order[i + 1]] < 0
       /\ Len(O.sorted) = n /\ {O.sorted[i] : i \in 1..n} = 1..n
       /\ \A i \in 1..n - 1 : LET c == C[O.sorted[i]][O.sorted[i + 1]]
                              IN c < 0 \/ (c = 0 /\ O.sorted[i] < O.sorted[i + 1])
Ok(e) ==
    /\ e.obs.r = "ok"
    /\ Len(e.obs.row) = Len(e.in.l)
    /\ \A i \in 1..Len(e.in.l) : Cell(e.in.l[1], e.in.l[i], e.obs.row[i])
    /\ (e.in.w = "all" => Map(e.in.l, e.obs.map))
Conforms == Events[l].bad \/ Ok(Events[l])
Rejects == Events[l].bad => ~Ok(Events[l])
=============================================================================
