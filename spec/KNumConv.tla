------------------------------ MODULE KNumConv ------------------------------
(***************************************************************************)
(* Conversions of numbers.  A number is [h, v]: h tells how it is held     *)
(* (u, i: integers; f, z, g: doubles), v its value, a record of KNumber.   *)
(***************************************************************************)
EXTENDS KNumber, SequencesExt

NoM == <<0, 0, 0, 0, 0, 0, 0, 0>>
NZero == [c |-> "fin", s |-> 0, e |-> 0, m |-> NoM]
(* the double closest to 1e-10, the tolerance *)
Tol == [c |-> "fin", s |-> 1, e |-> -33, m |-> <<56294, 65230, 48621, 55296, 0, 0, 0, 0>>]

BitAt(m, i) == (m[(i - 1) \div 16 + 1] \div 2^(15 - ((i - 1) % 16))) % 2
Limb(b, j) == LET at(i) == IF i <= Len(b) THEN b[i] ELSE 0
              IN FoldLeft(LAMBDA a, i : 2 * a + at(16 * (j - 1) + i), 0, [i \in 1..16 |-> i])
(* the number 0.b * 2^e of binary digits b, sign s *)
FromBits(s, b, e) ==
    IF \A i \in 1..Len(b) : b[i] = 0 THEN NZero
    ELSE LET j == CHOOSE j \in 1..Len(b) : b[j] = 1 /\ \A i \in 1..(j - 1) : b[i] = 0
             t == SubSeq(b, j, Len(b))
         IN [c |-> "fin", s |-> s, e |-> e - j + 1, m |-> [k \in 1..8 |-> Limb(t, k)]]
Bits(v) == [i \in 1..128 |-> BitAt(v.m, i)]

(* digits b plus one unit in the last; the result may be one digit longer *)
Plus1(b) ==
    IF \A i \in 1..Len(b) : b[i] = 1 THEN <<1>> \o [i \in 1..Len(b) |-> 0]
    ELSE LET p == CHOOSE p \in 1..Len(b) : b[p] = 0 /\ \A i \in (p + 1)..Len(b) : b[i] = 1
         IN [i \in 1..Len(b) |-> IF i < p THEN b[i] ELSE IF i = p THEN 1 ELSE 0]
(* 1 - 0.b *)
Complement(b) ==
    IF \A i \in 1..Len(b) : b[i] = 0 THEN <<1>>               \* not used
    ELSE LET p == CHOOSE p \in 1..Len(b) : b[p] = 1 /\ \A i \in (p + 1)..Len(b) : b[i] = 0
         IN [i \in 1..Len(b) |-> IF i < p THEN 1 - b[i] ELSE IF i = p THEN 1 ELSE 0]

(* the integers within the tolerance of v: a set of at most one record *)
NearInt(v) ==
    IF v.c # "fin" THEN {}
    ELSE IF v.s = 0 THEN {NZero}
    ELSE IF v.e >= 128 THEN {v}                               \* doubles this large are whole
    ELSE IF v.e < 0 THEN (IF NumCmp([v EXCEPT !.s = 1], Tol) < 0 THEN {NZero} ELSE {})
    ELSE LET b == Bits(v)
             whole == SubSeq(b, 1, v.e)
             frac == SubSeq(b, v.e + 1, 128)
             up == Plus1(whole)
         IN (IF NumCmp(FromBits(1, frac, 0), Tol) < 0 THEN {FromBits(v.s, whole, v.e)} ELSE {})
            \union
            (IF (\E i \in 1..Len(frac) : frac[i] = 1) /\ NumCmp(FromBits(1, Complement(frac), 0), Tol) < 0
             THEN {FromBits(v.s, up, IF Len(up) > v.e THEN v.e + 1 ELSE v.e)} ELSE {})

PowerOfTwo(m) == m[1] = 32768 /\ \A i \in 2..8 : m[i] = 0
FitsU(v) == v.c = "fin" /\ v.s >= 0 /\ (v.s = 0 \/ v.e <= 128)
FitsI(v) == v.c = "fin" /\ (v.s = 0 \/ v.e <= 127 \/ (v.s = -1 /\ v.e = 128 /\ PowerOfTwo(v.m)))

Whole(n) == IF n.h \in {"u", "i"} THEN {n.v} ELSE NearInt(n.v)
AsU(n) == {r \in Whole(n) : FitsU(r) /\ (n.v.s >= 0)}
AsI(n) == {r \in Whole(n) : FitsI(r)}

(* nearest double of an integer, ties to even; doubles are themselves *)
AsF(n) ==
    IF n.h \notin {"u", "i"} \/ n.v.s = 0 THEN n.v
    ELSE LET b == Bits(n.v)
             top == SubSeq(b, 1, 53)
             rest == \E i \in 55..128 : b[i] = 1
             up == b[54] = 1 /\ (rest \/ b[53] = 1)
             r == IF up THEN Plus1(top) ELSE top
         IN FromBits(n.v.s, r, IF Len(r) > 53 THEN n.v.e + 1 ELSE n.v.e)
=============================================================================
