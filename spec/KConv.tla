------------------------------- MODULE KConv -------------------------------
(***************************************************************************)
(* Direct conversion of standard types: the tree of a described piece of   *)
(* data, a sequence of at most one tree.  Descriptions are [k, c, ..]:     *)
(* k the kind, c the parts, p a text, n the name of a number type (q its   *)
(* value) or of a constructor, v a value that is converted as it is.       *)
(***************************************************************************)
EXTENDS KStore, KNames

Tree(k, id, p, c) == [k |-> k, id |-> id, p |-> p, nm |-> <<>>, ks |-> <<>>, c |-> c]
RECURSIVE Conv(_)
Conv(d) ==
    LET parts == [i \in 1..Len(d.c) |-> Conv(d.c[i])]
        good == \A i \in 1..Len(parts) : parts[i] # <<>>
        list(k, id) == IF good THEN <<Tree(k, id, "", [i \in 1..Len(parts) |-> parts[i][1]])>> ELSE <<>>
    IN CASE d.k = "num" -> <<[k |-> "num", id |-> <<d.n>>, q |-> d.q]>>
         [] d.k = "unit" -> <<Tree("unit", <<>>, "", <<>>)>>
         [] d.k = "bool" -> <<Tree("bool", <<"bool">>, d.p, <<>>)>>
         [] d.k = "char" -> <<Tree("str", <<"char">>, d.p, <<>>)>>
         [] d.k = "String" -> <<Tree("str", <<"String">>, d.p, <<>>)>>
         [] d.k = "str" -> <<Tree("str", <<"str">>, d.p, <<>>)>>
         [] d.k = "kserd" -> <<d.v>>
         [] d.k = "fallible" -> IF IsId(d.p) THEN <<Tree("unit", <<d.p>>, "", <<>>)>> ELSE <<>>
         [] d.k = "tuple" -> list("tuple", <<>>)
         [] d.k = "array" -> list("seq", <<"array">>)
         [] d.k = "vec" -> list("seq", <<"Vec">>)
         [] d.k \in {"box", "some"} -> parts[1]
         [] d.k = "none" -> list("tuple", <<"None">>)
         [] d.k = "ok" -> list("tuple", <<"Ok">>)
         [] d.k = "err" -> list("tuple", <<"Err">>)
         [] d.k = "new" ->
              (CASE d.n = "unit" -> <<Tree("unit", <<>>, "", <<>>)>>
                 [] d.n = "bool" -> <<Tree("bool", <<"bool">>, d.p, <<>>)>>
                 [] d.n = "str" -> <<Tree("str", <<"str">>, d.p, <<>>)>>
                 [] d.n = "string" -> <<Tree("str", <<"String">>, d.p, <<>>)>>
                 [] d.n = "barr" -> <<Tree("barr", <<"barr">>, d.p, <<>>)>>
                 [] d.n = "barrv" -> <<Tree("barr", <<"ByteVec">>, d.p, <<>>)>>
                 [] d.n = "new" -> <<[d.c[1] EXCEPT !.id = <<>>]>>
                 [] d.n \in {"cntr", "map"} -> <<[k |-> d.n, id |-> <<>>, p |-> "", nm |-> d.nm, ks |-> d.ks, c |-> d.c]>>)

(* what counts: everything but how a number is held *)
RECURSIVE Counts(_)
Counts(t) ==
    IF t.k = "num" THEN [k |-> "num", id |-> t.id, q |-> t.q]
    ELSE IF IsPrim(t.k) THEN [k |-> t.k, id |-> t.id, p |-> t.p]
    ELSE IF t.k = "cntr" THEN [k |-> "cntr", id |-> t.id, l |-> Len(t.c), f |-> {<<t.nm[i], Counts(t.c[i])>> : i \in 1..Len(t.c)}]
    ELSE IF t.k = "map" THEN [k |-> "map", id |-> t.id, l |-> Len(t.c), e |-> {<<Counts(t.ks[i]), Counts(t.c[i])>> : i \in 1..Len(t.c)}]
    ELSE [k |-> t.k, id |-> t.id, c |-> [i \in 1..Len(t.c) |-> Counts(t.c[i])]]
=============================================================================
