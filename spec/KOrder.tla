------------------------------- MODULE KOrder -------------------------------
(***************************************************************************)
(* Order and equality of values: by kind, then by contents; identities do  *)
(* not matter; an empty tuple and an empty container are the same value.   *)
(* Trees carry order keys: q = the number record of a number, o = the      *)
(* bytes of a string or byte array, no = the bytes of each field name.     *)
(***************************************************************************)
EXTENDS KTree, KNumber

Rank(t) ==
    IF t.k \in {"tuple", "cntr"} /\ t.c = <<>> THEN 6
    ELSE CASE t.k = "unit" -> 1 [] t.k = "bool" -> 2 [] t.k = "num" -> 3 [] t.k = "str" -> 4
           [] t.k = "barr" -> 5 [] t.k = "tuple" -> 7 [] t.k = "cntr" -> 8 [] t.k = "seq" -> 9 [] t.k = "map" -> 10

RECURSIVE Cmp(_, _), CmpList(_, _, _)
(* items compare by head (names or keys), then by value *)
CmpList(a, b, i) ==
    IF i > Len(a.c) \/ i > Len(b.c) THEN CmpInt(Len(a.c), Len(b.c))
    ELSE LET h == CASE a.k = "cntr" -> LexCmp(a.no[i], b.no[i])
                    [] a.k = "map" -> Cmp(a.ks[i], b.ks[i])
                    [] OTHER -> 0
             v == IF h # 0 THEN h ELSE Cmp(a.c[i], b.c[i])
         IN IF v # 0 THEN v ELSE CmpList(a, b, i + 1)

Cmp(a, b) ==
    IF Rank(a) # Rank(b) THEN CmpInt(Rank(a), Rank(b))
    ELSE CASE a.k = "unit" -> 0
           [] a.k = "bool" -> IF a.p = b.p THEN 0 ELSE IF a.p = "false" THEN -1 ELSE 1
           [] a.k = "num" -> NumCmp(a.q, b.q)
           [] a.k \in {"str", "barr"} -> LexCmp(a.o, b.o)
           [] OTHER -> IF Rank(a) = 6 THEN 0 ELSE CmpList(a, b, 1)
=============================================================================
