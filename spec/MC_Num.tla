------------------------------- MODULE MC_Num -------------------------------
(***************************************************************************)
(* Boundary numbers: every pattern of mantissa digits at every scale where *)
(* something changes, held in every way that can hold it.                  *)
(***************************************************************************)
EXTENDS KNumConv, KNumText, Json, IOUtils, TLC
CONSTANTS Scales, Pats
Emit == IOEnv.KV_EMIT

Ones(n) == [i \in 1..n |-> 1]
Ends(n) == [i \in 1..n |-> IF i = 1 \/ i = n THEN 1 ELSE 0]
At(n, set) == [i \in 1..n |-> IF i \in set THEN 1 ELSE 0]

QScales == {-33, -32, 0, 1, 2, 53, 54, 64, 127, 128, 129}
QPats == {Ones(n) : n \in {1, 2, 34, 36, 53, 54, 128}} \union {Ends(n) : n \in {34, 35, 36, 53, 54, 64, 127, 128}}
         \union {At(54, {1, 53, 54}), At(128, {1, 54, 128})}
TScales == {-1073, -1022, -1021, -40, -34, -33, -32, -1, 0, 1, 2, 3, 8, 16, 32, 52, 53, 54, 55, 63, 64, 65, 126, 127, 128, 129, 1023, 1024}
TPats == QPats \union {Ones(n) : n \in {3, 33, 35, 37, 52, 55, 63, 64, 65, 127}} \union {Ends(n) : n \in {2, 3, 33, 37, 52, 55, 63, 65}}
         \union {At(55, {1, 54, 55}), At(128, {1, 53, 54, 128}), At(54, {1, 2, 53, 54})}

Integral(v) == v.s = 0 \/ (v.e >= 1 /\ \A i \in (v.e + 1)..128 : BitAt(v.m, i) = 0)
Ways(v) ==
    (IF v.c = "fin" /\ Integral(v) /\ FitsU(v) THEN {"u"} ELSE {})
    \union (IF v.c = "fin" /\ Integral(v) /\ FitsI(v) THEN {"i"} ELSE {})
    \union (IF IsDouble(v) THEN {"f"} ELSE {})
    \union (IF v.c = "nan" THEN {"g"} ELSE {})              \* another NaN
    \union (IF v.c = "fin" /\ v.s = 0 THEN {"z"} ELSE {})   \* minus zero
Special == {NZero, [NZero EXCEPT !.c = "nan"], [NZero EXCEPT !.c = "inf", !.s = 1], [NZero EXCEPT !.c = "inf", !.s = -1]}
Values == Special \union {FromBits(s, p, e) : s \in {-1, 1}, p \in Pats, e \in Scales}
PoolSet == {[h |-> h, v |-> v] : h \in {"u", "i", "f", "g", "z"}, v \in Values}
Pool == {n \in PoolSet : n.h \in Ways(n.v)}

(* computed once; n walks over it *)
Walkers == 16
ASSUME TLCSet(1, SetToSeq(Pool))
PoolSeq == TLCGet(1)
VARIABLE n
Init == n \in 1..(IF Len(PoolSeq) < Walkers THEN Len(PoolSeq) ELSE Walkers)
Next == n + Walkers <= Len(PoolSeq) /\ n' = n + Walkers
Spec == Init /\ [][Next]_n
A == PoolSeq[n]

(* the order is a total order whose equality is sameness of value *)
Laws ==
    \A i \in 1..Len(PoolSeq) :
        LET B == PoolSeq[i]
            c == NumCmp(A.v, B.v)
        IN c = -NumCmp(B.v, A.v) /\ (c = 0 <=> A.v = B.v)
Few == {i \in 1..Len(PoolSeq) : i % 23 = 0}
Transitive == \A i, j \in Few : NumCmp(A.v, PoolSeq[i].v) <= 0 /\ NumCmp(PoolSeq[i].v, PoolSeq[j].v) <= 0
                                           => NumCmp(A.v, PoolSeq[j].v) <= 0
(* conversions: one answer, within the tolerance; the rounding of integers is the nearest double *)
Single == Len(SetToSeq(NearInt(A.v))) <= 1
Rounds == (A.h \in {"u", "i"}) =>
    LET f == AsF(A)
    IN IsDouble(f) /\ (A.v.s # 0 /\ A.v.e = 128 => Nearest(BigLimbs(A.v.m), 0, f))

Vector ==
    CASE Emit = "K10" -> [in |-> [l |-> <<A>> \o PoolSeq, pr |-> <<>>]]
      [] Emit = "K11" -> [in |-> [w |-> "num", n |-> A, ty |-> ""]]
      [] Emit = "K12" -> [in |-> [w |-> "num", n |-> A, cs |-> <<>>]]
Emitted == Emit = "" \/ PrintT(ToJson(Vector))
=============================================================================
