------------------------------ MODULE KNumText ------------------------------
(***************************************************************************)
(* Number syntax and its meaning.  A text is a sequence of code points.    *)
(*   integer   -? [0-9_]*  with at least one digit: exactly that integer   *)
(*   decimal   [+-]? digits with one optional point, at least one digit,   *)
(*             optional exponent e[+-]?digits: the nearest double          *)
(*   [+-]? inf | infinity | nan, in any case                               *)
(* Values are the records of KNumber.                                      *)
(***************************************************************************)
EXTENDS KNumber, KBig

IsDig(c) == c >= 48 /\ c <= 57
Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
InfW == <<105, 110, 102>>
InfinityW == <<105, 110, 102, 105, 110, 105, 116, 121>>
NanW == <<110, 97, 110>>

RECURSIVE DigEnd(_, _)                                    \* first index >= i that is not a digit
DigEnd(cs, i) == IF i <= Len(cs) /\ IsDig(cs[i]) THEN DigEnd(cs, i + 1) ELSE i
Vals(cs, i, j) == [n \in 1..(j - i) |-> cs[i + n - 1] - 48]
Cap == 100000
ExpVal(ds) == FoldLeft(LAMBDA a, d : IF a >= Cap THEN Cap ELSE 10 * a + d, 0, ds)

Out(r, neg, ds, k) == [r |-> r, neg |-> neg, ds |-> ds, k |-> k]
Bad == Out("err", FALSE, <<>>, 0)

ReadInt(cs) ==
    LET neg == Len(cs) > 0 /\ cs[1] = 45
        body == SubSeq(cs, IF neg THEN 2 ELSE 1, Len(cs))
        ds == SelectSeq(body, LAMBDA c : c # 95)
    IN IF \A i \in 1..Len(body) : IsDig(body[i]) \/ body[i] = 95
       THEN (IF ds = <<>> THEN Bad ELSE Out("int", neg, [i \in 1..Len(ds) |-> ds[i] - 48], 0))
       ELSE Out("no", FALSE, <<>>, 0)

ReadDec(cs) ==
    LET signed == Len(cs) > 0 /\ cs[1] \in {43, 45}
        neg == signed /\ cs[1] = 45
        p == IF signed THEN 2 ELSE 1
        word == [i \in 1..(Len(cs) - p + 1) |-> Lower(cs[p + i - 1])]
        i1 == DigEnd(cs, p)
        point == i1 <= Len(cs) /\ cs[i1] = 46
        f == IF point THEN i1 + 1 ELSE i1
        i2 == IF point THEN DigEnd(cs, f) ELSE f
        ds == Vals(cs, p, i1) \o (IF point THEN Vals(cs, f, i2) ELSE <<>>)
        frac == IF point THEN i2 - f ELSE 0
        ex == i2 <= Len(cs) /\ cs[i2] \in {69, 101}
        xs == ex /\ i2 < Len(cs) /\ cs[i2 + 1] \in {43, 45}
        x == IF xs THEN i2 + 2 ELSE i2 + 1
        i3 == IF ex THEN DigEnd(cs, x) ELSE i2
        xv == IF ex THEN ExpVal(Vals(cs, x, i3)) ELSE 0
        xneg == xs /\ cs[i2 + 1] = 45
    IN IF word = InfW \/ word = InfinityW THEN Out("inf", neg, <<>>, 0)
       ELSE IF word = NanW THEN Out("nan", neg, <<>>, 0)
       ELSE IF ds = <<>> \/ (ex /\ i3 = x) \/ i3 # Len(cs) + 1 THEN Bad
       ELSE Out("dec", neg, ds, (IF xneg THEN 0 - xv ELSE xv) - frac)

Read(cs) == LET q == ReadInt(cs) IN IF cs = <<>> THEN Bad ELSE IF q.r = "no" THEN ReadDec(cs) ELSE q

(***************************************************************************)
(* D * 10^k against s * 0.M * 2^e (magnitudes), everything scaled to whole *)
(* numbers.                                                                *)
(***************************************************************************)
Max3(a, b, c) == IF a >= b /\ a >= c THEN a ELSE IF b >= c THEN b ELSE c
Pos0(x) == IF x > 0 THEN x ELSE 0
Big2(k) == BigShl(<<1>>, k)

CmpDec(D, k, v) ==
    IF v.s = 0 THEN (IF D = <<>> THEN 0 ELSE 1)
    ELSE LET t == Pos0(128 - v.e)
             A == BigShl(BigTens(D, Pos0(k)), t)
             B == BigTens(BigShl(BigLimbs(v.m), v.e - 128 + t), Pos0(0 - k))
         IN BigCmp(A, B)

(* bit i (1 = most significant) of the 128 bit mantissa *)
Bit(m, i) == (m[(i - 1) \div 16 + 1] \div 2^(15 - ((i - 1) % 16))) % 2
(* unit in the last place of the double v: 2^UlpExp(v) *)
UlpExp(v) == IF v.e - 53 > -1074 THEN v.e - 53 ELSE -1074
IsDouble(v) == v.c # "fin" \/ v.s = 0
               \/ (v.e <= 1024 /\ v.e >= -1073 /\ \A i \in (v.e - UlpExp(v) + 1)..128 : Bit(v.m, i) = 0)

LowestPow(m) == m[1] = 32768 /\ \A i \in 2..8 : m[i] = 0  \* a power of two

(* v (a double) is the nearest double, ties to even, to the magnitude D * 10^k *)
Nearest(D, k, v) ==
    LET u == UlpExp(v)
        t == Max3(0, 128 - v.e, 2 - u)
        tens(n) == BigTens(n, Pos0(0 - k))
        A == BigShl(BigTens(D, Pos0(k)), t)
        B == tens(BigShl(BigLimbs(v.m), v.e - 128 + t))
        H == tens(Big2(u - 1 + t))
        Hd == IF LowestPow(v.m) /\ v.e - 53 > -1074 THEN tens(Big2(u - 2 + t)) ELSE H
        even == Bit(v.m, v.e - u) = 0
        up == BigCmp(A, BigAdd(B, H))
        down == BigCmp(B, BigAdd(A, Hd))
    IN (up < 0 \/ (up = 0 /\ even)) /\ (down < 0 \/ (down = 0 /\ even))
(* at most half the least double: rounds to zero *)
Vanishes(D, k) == BigCmp(BigShl(BigTens(D, Pos0(k)), 1075), BigTens(<<1>>, Pos0(0 - k))) <= 0
(* at least half a step above the greatest double *)
Overflows(D, k) ==
    LET z == Pos0(0 - k)
    IN BigCmp(BigAdd(BigTens(D, Pos0(k)), BigTens(Big2(970), z)), BigTens(Big2(1024), z)) >= 0

SignOk(neg, v) == v.s = 0 \/ v.s = (IF neg THEN -1 ELSE 1)
DoubleOk(q, v) ==
    LET D == BigDigits(q.ds)
        mag == 4 * Len(D) + q.k                             \* D * 10^k < 10^mag
    IN /\ SignOk(q.neg, v)
       /\ IF D = <<>> THEN v.c = "fin" /\ v.s = 0
          ELSE IF mag < -330 THEN v.c = "fin" /\ v.s = 0
          ELSE IF mag - 4 > 310 THEN v.c = "inf"
          ELSE IF v.c = "inf" THEN Overflows(D, q.k)
          ELSE v.c = "fin" /\ IF v.s = 0 THEN Vanishes(D, q.k)
                              ELSE IsDouble(v) /\ ~Overflows(D, q.k) /\ Nearest(D, q.k, v)

InRange(q) == IF q.neg THEN BigCmp(BigDigits(q.ds), Big2(127)) <= 0 ELSE BigCmp(BigDigits(q.ds), Big2(128)) < 0

(* the outcome o = [r, v] is a reading of the text *)
ReadOk(cs, o) ==
    LET q == Read(cs)
    IN CASE q.r = "err" -> o.r = "err"
         [] q.r = "inf" -> o.r = "ok" /\ o.v.c = "inf" /\ SignOk(q.neg, o.v)
         [] q.r = "nan" -> o.r = "ok" /\ o.v.c = "nan"
         [] q.r = "dec" -> o.r = "ok" /\ DoubleOk(q, o.v)
         [] q.r = "int" -> IF InRange(q)
                           THEN o.r = "ok" /\ o.v.c = "fin" /\ SignOk(q.neg, o.v) /\ CmpDec(BigDigits(q.ds), 0, o.v) = 0
                           ELSE o.r = "err" \/ DoubleOk(q, o.v)
=============================================================================
