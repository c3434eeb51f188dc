------------------------------- MODULE TR_K25 -------------------------------
(***************************************************************************)
(* A session on holders: all contents after every operation (seen through  *)
(* each way of looking), then every pair compared, what each shows, lookups*)
(* in maps keyed by the holders, and the sources as they are at the end.   *)
(***************************************************************************)
EXTENDS KHold, KTrace
RECURSIVE Steps(_, _, _, _)
Steps(src, H, ops, seen) ==
    IF ops = <<>> THEN seen = <<>>
    ELSE /\ seen # <<>>
         /\ LET G == Step(src, H, Head(ops))
            IN Head(seen) = [i \in 1..Len(G) |-> [v |-> G[i], same |-> TRUE]] /\ Steps(src, G, Tail(ops), Tail(seen))
RECURSIVE After(_, _, _)
After(src, H, ops) == IF ops = <<>> THEN H ELSE After(src, Step(src, H, Head(ops)), Tail(ops))
Pair(a, b, o) ==
    LET c == Cmp(a, b)
    IN /\ o.cmp = c /\ o.pc = c
       /\ o.eq = (c = 0) /\ o.ne = (c # 0) /\ o.plain = (c = 0) /\ o.plainly = (c = 0)
       /\ o.lt = (c < 0) /\ o.ge = (c >= 0)
       /\ (c = 0 => o.hash)
Plain(c) == \A i \in 1..Len(c) : c[i] \in 32..126 \ {34, 92}
RECURSIVE Listed(_)
Listed(c) == IF c = <<>> THEN "" ELSE ToString(c[1]) \o (IF Len(c) = 1 THEN "" ELSE ", " \o Listed(Tail(c)))
Shows(ty, c, o) ==
    IF ty = "text" THEN o.show = c /\ (Plain(c) => o.dbg = <<34>> \o c \o <<34>>)
    ELSE o.text = "[" \o Listed(c) \o "]"
Ok(e) ==
    LET in == e.in
        H == After(in.src, <<>>, in.ops)
        n == Len(H)
        o == e.obs
        last(i) == CHOOSE j \in 1..n : H[j] = H[i] /\ \A k \in (j + 1)..n : H[k] # H[i]
    IN /\ o.r = "ok"
       /\ Steps(in.src, <<>>, in.ops, o.steps)
       /\ o.src = in.src
       /\ Len(o.pairs) = n
       /\ \A i \in 1..n : Len(o.pairs[i]) = n /\ \A j \in 1..n : Pair(H[i], H[j], o.pairs[i][j])
       /\ Len(o.shown) = n /\ \A i \in 1..n : Shows(in.ty, H[i], o.shown[i])
       /\ o.found = [i \in 1..n |-> last(i)] /\ o.hashed = [i \in 1..n |-> last(i)]
Conforms == Events[l].bad \/ Ok(Events[l])
Rejects == Events[l].bad => ~Ok(Events[l])
=============================================================================
