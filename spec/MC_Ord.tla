------------------------------- MODULE MC_Ord -------------------------------
(***************************************************************************)
(* Every small value against every other: the order laws of the model, and *)
(* the comparisons for the implementation to make.                         *)
(***************************************************************************)
EXTENDS KGen, Json, IOUtils
CONSTANT Families
Emit == IOEnv.KV_EMIT
QFamilies == {<<1, 5, {0, 1}>>, <<2, 4, {0}>>, <<2, 1, {1}>>, <<3, 2, {0}>>}
TFamilies == {<<1, 5, {0, 1}>>, <<2, 5, {0, 1}>>, <<3, 4, {0}>>}

(* computed once; n walks over it *)
Walkers == 16
ASSUME TLCSet(1, SetToSeq(UNION {Family(f[1], f[2], f[3]) : f \in Families}))
P == TLCGet(1)
VARIABLE n
Init == n \in 1..(IF Len(P) < Walkers THEN Len(P) ELSE Walkers)
Next == n + Walkers <= Len(P) /\ n' = n + Walkers
Spec == Init /\ [][Next]_n
A == P[n]
Laws ==
    LET na == EqNorm(A)
    IN \A i \in 1..Len(P) :
        LET c == Cmp(A, P[i])
        IN c = -Cmp(P[i], A) /\ (c = 0 <=> na = EqNorm(P[i]))
Few == {i \in 1..Len(P) : i % 17 = 0}
Transitive == \A i, j \in Few : Cmp(A, P[i]) <= 0 /\ Cmp(P[i], P[j]) <= 0 => Cmp(A, P[j]) <= 0
Emitted == Emit = "" \/ PrintT(ToJson([in |-> [w |-> "row", l |-> <<A>> \o P]]))
=============================================================================
