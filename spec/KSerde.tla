------------------------------- MODULE KSerde -------------------------------
(***************************************************************************)
(* The serde data model.  A piece of data is a record                      *)
(*   [k, n, p, q, r, f, ks, c]: kind, name of the struct, variant or       *)
(*   integer type, payload, number, decimal reading of an f32 as a double, *)
(*   field names, keys, parts;                                             *)
(* a type is [k, n, f, c, vs] with variants vs of the same shape.          *)
(* Enc is the tree of a piece of data, Dec what decoding a tree as a type  *)
(* gives; both are sequences of at most one result.                        *)
(***************************************************************************)
EXTENDS KTree, KNumConv

Width(n) == CASE n \in {"u8", "i8"} -> 8 [] n \in {"u16", "i16"} -> 16 [] n \in {"u32", "i32"} -> 32
              [] n \in {"u64", "i64"} -> 64 [] n \in {"u128", "i128"} -> 128
Unsigned(n) == n \in {"u8", "u16", "u32", "u64", "u128"}
Illegal == {"(", ")", "{", "}", "[", "]", "<", ">", " ", ",", ".", "/", "\\", "="}
LegalId(s) == \A i \in 1..Len(s) : SubSeq(s, i, i) \notin Illegal

(* n tells how a number is held, u holds the text of the bytes if they are text *)
Tree(k, id, p, q, nm, ks, c) ==
    [k |-> k, id |-> id, p |-> p, q |-> q, n |-> "", u |-> <<>>, nm |-> nm, ks |-> ks, c |-> c]
All(s) == \A i \in 1..Len(s) : s[i] # <<>>
Firsts(s) == [i \in 1..Len(s) |-> s[i][1]]

(***************************************************************************)
(* Encoding                                                                *)
(***************************************************************************)
RECURSIVE Enc(_)
Enc(d) ==
    LET prim(k, id) == <<Tree(k, id, d.p, NZero, <<>>, <<>>, <<>>)>>
        num(h, q) == <<[Tree("num", <<d.n>>, "", q, <<>>, <<>>, <<>>) EXCEPT !.n = h]>>
        parts == [i \in 1..Len(d.c) |-> Enc(d.c[i])]
        keys == [i \in 1..Len(d.ks) |-> Enc(d.ks[i])]
        list(k, id) == IF All(parts) THEN <<Tree(k, id, "", NZero, <<>>, <<>>, Firsts(parts))>> ELSE <<>>
        named(k) == IF LegalId(d.n) /\ All(parts)
                    THEN <<Tree(k, <<d.n>>, "", NZero, IF k = "cntr" THEN d.f ELSE <<>>, <<>>, Firsts(parts))>>
                    ELSE <<>>
    IN CASE d.k = "bool" -> prim("bool", <<"bool">>)
         [] d.k = "int" -> num(IF Unsigned(d.n) THEN "u" ELSE "i", d.q)
         [] d.k = "f32" -> num("f", d.r)
         [] d.k = "f64" -> num("f", d.q)
         [] d.k = "char" -> prim("str", <<"char">>)
         [] d.k \in {"str", "bstr"} -> prim("str", <<"str">>)
         [] d.k = "bytes" -> prim("barr", <<"barr">>)
         [] d.k = "unit" -> prim("unit", <<>>)
         [] d.k = "none" -> list("tuple", <<"None">>)
         [] d.k = "some" -> list("tuple", <<"Some">>)
         [] d.k = "seq" -> list("seq", <<>>)
         [] d.k = "tuple" -> list("tuple", <<>>)
         [] d.k = "map" -> IF All(parts) /\ All(keys)
                           THEN <<Tree("map", <<>>, "", NZero, <<>>, Firsts(keys), Firsts(parts))>> ELSE <<>>
         [] d.k \in {"ustruct", "nstruct", "tstruct", "uvar", "nvar", "tvar"} -> named("tuple")
         [] d.k \in {"struct", "svar"} -> named("cntr")

(* what counts of a tree: names, kinds, contents; entries in any order *)
RECURSIVE Content(_)
Content(t) ==
    IF t.k = "num" THEN [k |-> "num", id |-> t.id, q |-> t.q]
    ELSE IF IsPrim(t.k) THEN [k |-> t.k, id |-> t.id, p |-> t.p]
    ELSE IF t.k = "cntr" THEN [k |-> "cntr", id |-> t.id, n |-> Len(t.c), f |-> {<<t.nm[i], Content(t.c[i])>> : i \in 1..Len(t.c)}]
    ELSE IF t.k = "map" THEN [k |-> "map", id |-> t.id, n |-> Len(t.c), e |-> {<<Content(t.ks[i]), Content(t.c[i])>> : i \in 1..Len(t.c)}]
    ELSE [k |-> t.k, id |-> t.id, c |-> [i \in 1..Len(t.c) |-> Content(t.c[i])]]

(***************************************************************************)
(* Results: data in which a map is its set of entries                      *)
(***************************************************************************)
RWord(k, p) == [k |-> k, p |-> p]
RNum(k, n, q) == [k |-> k, n |-> n, q |-> q]
RList(k, n, f, c) == [k |-> k, n |-> n, f |-> f, c |-> c]
(* the last of equal keys counts *)
RMap(ks, c) == [k |-> "map", e |-> {<<ks[i], c[i]>> : i \in {i \in 1..Len(ks) : \A j \in (i + 1)..Len(ks) : ks[j] # ks[i]}}]
(* data as it presents itself, asked by a reader of any type *)
RAny(n, p, q, ks, c) ==
    IF n = "map" THEN [k |-> "any", n |-> n, l |-> Len(c), e |-> {<<ks[i], c[i]>> : i \in 1..Len(c)}]
    ELSE [k |-> "any", n |-> n, p |-> p, q |-> q, c |-> c]
RECURSIVE Value(_)
Value(d) ==
    LET each(s) == [i \in 1..Len(s) |-> Value(s[i])]
    IN CASE d.k \in {"bool", "char", "str", "bstr", "bytes", "unit", "none"} -> RWord(d.k, d.p)
         [] d.k \in {"int", "f32", "f64"} -> RNum(d.k, d.n, d.q)
         [] d.k = "map" -> RMap(each(d.ks), each(d.c))
         [] d.k = "any" -> RAny(d.n, d.p, d.q, each(d.ks), each(d.c))
         [] OTHER -> RList(d.k, d.n, d.f, each(d.c))

(***************************************************************************)
(* Decoding                                                                *)
(***************************************************************************)
InU(v, b) == v.s = 0 \/ (v.s = 1 /\ v.e <= b)
InI(v, b) == v.s = 0 \/ v.e <= b - 1 \/ (v.s = -1 /\ v.e = b /\ PowerOfTwo(v.m))
AsInt(x, n) == IF Unsigned(n) THEN {r \in AsU(x) : InU(r, Width(n))} ELSE {r \in AsI(x) : InI(r, Width(n))}

(* nearest single precision number of a double, ties to even *)
Single(v) ==
    IF v.c # "fin" \/ v.s = 0 THEN v
    ELSE LET p == IF v.e >= -125 THEN 24 ELSE v.e + 149
         IN IF p < 0 THEN NZero
            ELSE LET b == Bits(v)
                     top == SubSeq(b, 1, p)
                     up == b[p + 1] = 1 /\ ((\E i \in (p + 2)..128 : b[i] = 1) \/ (p > 0 /\ b[p] = 1))
                     r == IF up THEN Plus1(top) ELSE top
                     w == FromBits(v.s, r, IF Len(r) > p THEN v.e + 1 ELSE v.e)
                 IN IF w.s # 0 /\ w.e > 128 THEN [c |-> "inf", s |-> v.s, e |-> 0, m |-> NoM] ELSE w

(* how a value presents itself when nothing is known of the type *)
Face(t) == IF t.k # "tuple" THEN t.k
           ELSE IF Len(t.c) = 0 /\ t.id = <<"None">> THEN "none"
           ELSE IF Len(t.c) = 1 /\ t.id = <<"Some">> THEN "some"
           ELSE IF Len(t.c) = 1 /\ t.id # <<>> THEN "new"
           ELSE "seq"
Chars(t) == IF "cc" \in DOMAIN t THEN t.cc ELSE Len(t.p)

(* a name used as a map key *)
DecName(s, chars, T) ==
    CASE T.k = "str" -> <<RWord("str", s)>>
      [] T.k = "char" -> IF chars = 1 THEN <<RWord("char", s)>> ELSE <<>>
      [] T.k = "enum" -> IF \E i \in 1..Len(T.vs) : T.vs[i].n = s /\ T.vs[i].k = "uvar"
                         THEN <<RList("uvar", s, <<>>, <<>>)>> ELSE <<>>
      [] T.k = "any" -> <<RAny("str", s, NZero, <<>>, <<>>)>>
      [] OTHER -> <<>>

RECURSIVE DecAny(_, _)
DecAny(t, own) ==
    LET each(s) == [i \in 1..Len(s) |-> DecAny(s[i], own)]
        word(n) == RAny(n, t.p, NZero, <<>>, <<>>)
        num(n) == RAny(n, "", t.q, <<>>, <<>>)
        list(n) == RAny(n, "", NZero, <<>>, each(t.c))
    IN CASE t.k = "unit" -> word("unit")
         [] t.k = "bool" -> word("bool")
         [] t.k = "num" -> IF t.n = "u" THEN (IF InU(t.q, 64) THEN num("u64") ELSE num("u128"))
                           ELSE IF t.n = "i" THEN (IF InI(t.q, 64) THEN num("i64") ELSE num("i128"))
                           ELSE num("f64")
         [] t.k = "str" -> word(IF own THEN "str" ELSE "bstr")
         [] t.k = "barr" -> word(IF own THEN "bytes" ELSE "bbytes")
         [] t.k \in {"tuple", "seq"} -> list(Face(t))
         [] t.k = "cntr" -> RAny("map", "", NZero, [i \in 1..Len(t.nm) |-> RAny("str", t.nm[i], NZero, <<>>, <<>>)], each(t.c))
         [] t.k = "map" -> RAny("map", "", NZero, each(t.ks), each(t.c))

None == RWord("none", "")
Small64(t) == t.n = "u" /\ InU(t.q, 64)
IndexOf(v) == IF v.s = 0 THEN 0 ELSE IF v.e > 12 THEN 4096 ELSE v.m[1] \div 2^(16 - v.e)
(* the field a key of a map stands for: its number, 0 for an unknown field, -1 if it is no field name *)
FieldOf(key, names) ==
    LET at(s) == IF \E i \in 1..Len(names) : names[i] = s THEN CHOOSE i \in 1..Len(names) : names[i] = s ELSE 0
    IN CASE key.k = "str" -> at(key.p)
         [] key.k = "barr" -> IF key.u # <<>> THEN at(key.u[1]) ELSE 0
         [] key.k = "num" /\ Small64(key) -> IF IndexOf(key.q) < Len(names) THEN IndexOf(key.q) + 1 ELSE 0
         [] OTHER -> -1

RECURSIVE Dec(_, _, _)
(* as the parts of a tuple *)
DecAll(c, T, own) ==
    IF Len(c) < Len(T.c) THEN <<>>
    ELSE LET r == [i \in 1..Len(T.c) |-> Dec(c[i], T.c[i], own)]
         IN IF All(r) THEN <<Firsts(r)>> ELSE <<>>
(* as the fields of a struct: entry i stands for field at[i] *)
DecFields(at, c, T, own) ==
    LET of(j) == {i \in 1..Len(at) : at[i] = j}
        got(j) == IF of(j) = {} THEN (IF T.c[j].k = "opt" THEN <<None>> ELSE <<>>)
                  ELSE Dec(c[CHOOSE i \in of(j) : TRUE], T.c[j], own)
        r == [j \in 1..Len(T.c) |-> got(j)]
    IN IF (\E i \in 1..Len(at) : at[i] = -1) \/ (\E j \in 1..Len(T.c) : Cardinality(of(j)) > 1) THEN <<>>
       ELSE IF All(r) THEN <<Firsts(r)>> ELSE <<>>
DecCntr(t, T, own) ==
    DecFields([i \in 1..Len(t.c) |-> FieldOf([k |-> "str", p |-> t.nm[i]], T.f)], t.c, T, own)
Wrap(r, k, n, f) == IF r = <<>> THEN <<>> ELSE <<RList(k, n, f, r[1])>>
Inner(r, k, n) == IF r = <<>> THEN <<>> ELSE <<RList(k, n, <<>>, r)>>

Dec(t, T, own) ==
    LET x == [h |-> t.n, v |-> t.q]
        face == Face(t)
    IN CASE T.k = "bool" -> IF t.k = "bool" THEN <<RWord("bool", t.p)>> ELSE <<>>
         [] T.k = "int" -> IF t.k = "num" THEN SetToSeq({RNum("int", T.n, r) : r \in AsInt(x, T.n)}) ELSE <<>>
         [] T.k = "f64" -> IF t.k = "num" THEN <<RNum("f64", "f64", AsF(x))>> ELSE <<>>
         [] T.k = "f32" -> IF t.k = "num" THEN <<RNum("f32", "f32", Single(AsF(x)))>> ELSE <<>>
         [] T.k = "char" -> IF t.k = "str" /\ Chars(t) = 1 THEN <<RWord("char", t.p)>> ELSE <<>>
         [] T.k = "str" \/ (T.k = "bstr" /\ ~own) ->
                IF t.k = "str" THEN <<RWord(T.k, t.p)>>
                ELSE IF t.k = "barr" /\ t.u # <<>> THEN <<RWord(T.k, t.u[1])>> ELSE <<>>
         [] T.k = "bstr" /\ own -> <<>>
         [] T.k = "bytes" -> IF t.k = "barr" THEN <<RWord("bytes", t.p)>> ELSE <<>>
         [] T.k = "unit" -> IF t.k = "unit" THEN <<RWord("unit", "")>> ELSE <<>>
         [] T.k = "opt" -> IF face \in {"none", "unit"} THEN <<None>>
                           ELSE IF face = "some" THEN Inner(Dec(t.c[1], T.c[1], own), "some", "") ELSE <<>>
         [] T.k = "seq" -> IF face # "seq" THEN <<>>
                           ELSE LET r == [i \in 1..Len(t.c) |-> Dec(t.c[i], T.c[1], own)]
                                IN IF All(r) THEN <<RList("seq", "", <<>>, Firsts(r))>> ELSE <<>>
         [] T.k = "tuple" -> IF face = "seq" THEN Wrap(DecAll(t.c, T, own), "tuple", "", <<>>) ELSE <<>>
         [] T.k = "map" ->
                IF t.k \notin {"map", "cntr"} THEN <<>>
                ELSE LET ks == [i \in 1..Len(t.c) |-> IF t.k = "map" THEN Dec(t.ks[i], T.c[1], own)
                                                      ELSE DecName(t.nm[i], IF "nc" \in DOMAIN t THEN t.nc[i] ELSE Len(t.nm[i]), T.c[1])]
                         vs == [i \in 1..Len(t.c) |-> Dec(t.c[i], T.c[2], own)]
                     IN IF All(ks) /\ All(vs) THEN <<RMap(Firsts(ks), Firsts(vs))>> ELSE <<>>
         [] T.k = "ustruct" -> IF t.k = "tuple" /\ t.c = <<>> THEN <<RList("ustruct", T.n, <<>>, <<>>)>> ELSE <<>>
         [] T.k = "nstruct" -> IF (t.k = "tuple" /\ Len(t.c) = 1) \/ (face = "seq" /\ Len(t.c) > 0)
                               THEN Inner(Dec(t.c[1], T.c[1], own), "nstruct", T.n) ELSE <<>>
         [] T.k = "tstruct" -> IF t.k \in {"tuple", "seq"} THEN Wrap(DecAll(t.c, T, own), "tstruct", T.n, <<>>) ELSE <<>>
         [] T.k = "struct" ->
                IF face = "seq" \/ (t.k = "tuple" /\ t.c = <<>>) THEN Wrap(DecAll(t.c, T, own), "struct", T.n, T.f)
                ELSE IF t.k = "cntr" THEN Wrap(DecCntr(t, T, own), "struct", T.n, T.f)
                ELSE IF t.k = "map"
                THEN Wrap(DecFields([i \in 1..Len(t.c) |-> FieldOf(t.ks[i], T.f)], t.c, T, own), "struct", T.n, T.f)
                ELSE <<>>
         [] T.k = "any" -> <<DecAny(t, own)>>
         [] T.k = "enum" ->
                IF t.id = <<>> \/ ~\E i \in 1..Len(T.vs) : T.vs[i].n = t.id[1] THEN <<>>
                ELSE LET V == T.vs[CHOOSE i \in 1..Len(T.vs) : T.vs[i].n = t.id[1]]
                         empty == t.k = "tuple" /\ t.c = <<>>
                     IN CASE V.k = "uvar" -> IF t.k = "unit" \/ empty THEN <<RList("uvar", V.n, <<>>, <<>>)>> ELSE <<>>
                          [] V.k = "nvar" -> IF t.k = "tuple" /\ Len(t.c) = 1
                                             THEN Inner(Dec(t.c[1], V.c[1], own), "nvar", V.n) ELSE <<>>
                          [] V.k = "tvar" -> IF t.k = "tuple" /\ Len(t.c) = Len(V.c)
                                             THEN Wrap(DecAll(t.c, V, own), "tvar", V.n, <<>>) ELSE <<>>
                          [] V.k = "svar" -> IF t.k = "cntr" THEN Wrap(DecCntr(t, V, own), "svar", V.n, V.f)
                                             ELSE IF empty THEN Wrap(DecFields(<<>>, <<>>, V, own), "svar", V.n, V.f)
                                             ELSE <<>>
=============================================================================
