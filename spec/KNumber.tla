------------------------------ MODULE KNumber ------------------------------
(***************************************************************************)
(* The number line.  A number is a record [c, s, e, m]:                    *)
(*   c = "nan" | "inf" | "fin", s = sign (-1, 0, 1),                       *)
(*   a finite non-zero number is s * 2^e * 0.M with M the 128 binary       *)
(*   digits m (eight 16 bit limbs, most significant first, top bit set).   *)
(* Every u128, i128 and f64 has exactly one such record, except that all   *)
(* zeros and all NaNs coincide.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences

CmpInt(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0

(* lexicographic; a proper prefix comes first *)
RECURSIVE LexFrom(_, _, _)
LexFrom(p, q, i) ==
    IF i > Len(p) \/ i > Len(q) THEN CmpInt(Len(p), Len(q))
    ELSE IF p[i] # q[i] THEN CmpInt(p[i], q[i])
    ELSE LexFrom(p, q, i + 1)
LexCmp(p, q) == LexFrom(p, q, 1)

(* -inf < finite < inf < NaN *)
Region(x) == IF x.c = "nan" THEN 3 ELSE IF x.c = "fin" THEN 1 ELSE IF x.s < 0 THEN 0 ELSE 2

NumCmp(a, b) ==
    IF Region(a) # Region(b) THEN CmpInt(Region(a), Region(b))
    ELSE IF Region(a) # 1 THEN 0
    ELSE IF a.s # b.s THEN CmpInt(a.s, b.s)
    ELSE IF a.s = 0 THEN 0
    ELSE IF a.e # b.e THEN a.s * CmpInt(a.e, b.e)
    ELSE a.s * LexCmp(a.m, b.m)
=============================================================================
