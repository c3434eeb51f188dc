-------------------------------- MODULE KBig --------------------------------
(***************************************************************************)
(* Natural numbers of any size: sequences of base 10000 digits, least      *)
(* significant first, no leading zero digit; <<>> is zero.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt
LOCAL Base == 10000

RECURSIVE Carry(_)
Carry(c) == IF c = 0 THEN <<>> ELSE <<c % Base>> \o Carry(c \div Base)
(* n * f + add, 0 <= f <= 200000 *)
BigMulAdd(n, f, add) ==
    IF f = 0 THEN Carry(add)
    ELSE LET r == FoldLeft(LAMBDA a, d : LET x == d * f + a.c IN [o |-> Append(a.o, x % Base), c |-> x \div Base],
                           [o |-> <<>>, c |-> add], n)
         IN r.o \o Carry(r.c)
BigMul(n, f) == BigMulAdd(n, f, 0)

RECURSIVE BigCmpFrom(_, _, _)
BigCmpFrom(a, b, i) ==
    IF i = 0 THEN 0 ELSE IF a[i] # b[i] THEN (IF a[i] < b[i] THEN -1 ELSE 1) ELSE BigCmpFrom(a, b, i - 1)
BigCmp(a, b) ==
    IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE BigCmpFrom(a, b, Len(a))

BigAdd(a, b) ==
    LET n == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
        at(q, i) == IF i <= Len(q) THEN q[i] ELSE 0
        r == FoldLeft(LAMBDA s, i : LET x == at(a, i) + at(b, i) + s.c IN [o |-> Append(s.o, x % Base), c |-> x \div Base],
                      [o |-> <<>>, c |-> 0], [i \in 1..n |-> i])
    IN r.o \o Carry(r.c)

RECURSIVE BigShl(_, _)                                    \* n * 2^k
BigShl(n, k) ==
    IF n = <<>> \/ k = 0 THEN n
    ELSE IF k >= 16 THEN BigShl(BigMul(n, 65536), k - 16)
    ELSE BigMul(n, 2^k)

BigTens(n, k) ==                                          \* n * 10^k
    IF n = <<>> THEN <<>> ELSE [i \in 1..(k \div 4) |-> 0] \o BigMul(n, 10^(k % 4))

(* from decimal digits, most significant first *)
BigDigits(ds) ==
    LET n == Len(ds)
        g == (n + 3) \div 4
        dig(i) == IF i < 1 THEN 0 ELSE ds[i]                 \* position from the left
        limb(j) == LET e == n - 4 * (j - 1)
                   IN dig(e) + 10 * dig(e - 1) + 100 * dig(e - 2) + 1000 * dig(e - 3)
        raw == [j \in 1..g |-> limb(j)]
        top == CHOOSE m \in 0..g : (m = 0 \/ raw[m] # 0) /\ \A j \in (m + 1)..g : raw[j] = 0
    IN SubSeq(raw, 1, top)

(* from 16 bit limbs, most significant first *)
BigLimbs(m) == FoldLeft(LAMBDA a, d : IF a = <<>> THEN Carry(d) ELSE BigMulAdd(a, 65536, d), <<>>, m)
=============================================================================
