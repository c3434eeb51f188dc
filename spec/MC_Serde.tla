------------------------------ MODULE MC_Serde ------------------------------
(***************************************************************************)
(* Every small type and some values of each: what is encoded decodes to    *)
(* itself; and the encodings, and decodings as every other type, for the   *)
(* implementation to repeat.                                               *)
(***************************************************************************)
EXTENDS KSerde, Json, IOUtils
CONSTANTS Level, Stride, Most
Emit == IOEnv.KV_EMIT

T(k, n, f, c, vs) == [k |-> k, n |-> n, f |-> f, c |-> c, vs |-> vs]
D(k, n, p, q, r, f, ks, c) == [k |-> k, n |-> n, p |-> p, q |-> q, r |-> r, f |-> f, ks |-> ks, c |-> c]
Word(k, p) == D(k, "", p, NZero, NZero, <<>>, <<>>, <<>>)
Num(k, n, q) == D(k, n, "", q, NZero, <<>>, <<>>, <<>>)
List(k, n, f, c) == D(k, n, "", NZero, NZero, f, <<>>, c)

Fin(s, e, m) == [c |-> "fin", s |-> s, e |-> e, m |-> m]
Z == 0
One == Fin(1, 1, <<32768, Z, Z, Z, Z, Z, Z, Z>>)
Max8 == Fin(1, 8, <<65280, Z, Z, Z, Z, Z, Z, Z>>)
Min8 == Fin(-1, 8, <<32768, Z, Z, Z, Z, Z, Z, Z>>)
Max64 == Fin(1, 64, <<65535, 65535, 65535, 65535, Z, Z, Z, Z>>)
Max128 == Fin(1, 128, [i \in 1..8 |-> 65535])
Min128 == Fin(-1, 128, <<32768, Z, Z, Z, Z, Z, Z, Z>>)
Half == Fin(1, 0, <<32768, Z, Z, Z, Z, Z, Z, Z>>)
Tenth32 == Fin(1, -3, <<52428, 52480, Z, Z, Z, Z, Z, Z>>)
Tenth64 == Fin(1, -3, <<52428, 52428, 52428, 53248, Z, Z, Z, Z>>)
NaN == [c |-> "nan", s |-> 0, e |-> 0, m |-> NoM]
F32(q, r) == D("f32", "f32", "", q, r, <<>>, <<>>, <<>>)

Plain(k) == T(k, "", <<>>, <<>>, <<>>)
IntT(n) == T("int", n, <<>>, <<>>, <<>>)
U8 == IntT("u8")
Str == Plain("str")
L0 == <<U8, Str, IntT("i8"), IntT("u64"), IntT("i128"), IntT("u128"), T("f32", "f32", <<>>, <<>>, <<>>),
        T("f64", "f64", <<>>, <<>>, <<>>), Plain("bool"), Plain("char"), Plain("bytes"), Plain("unit")>>
Marks == <<T("ustruct", "S", <<>>, <<>>, <<>>), T("ustruct", "None", <<>>, <<>>, <<>>), T("tstruct", "None", <<>>, <<>>, <<>>),
           T("struct", "S", <<>>, <<>>, <<>>), T("struct", "None", <<>>, <<>>, <<>>),
           T("tstruct", "S", <<>>, <<U8, Str>>, <<>>), T("tuple", "", <<>>, <<Str, U8>>, <<>>),
           T("struct", "S", <<"b", "a">>, <<U8, Str>>, <<>>)>>
Var(k, n, f, c) == T(k, n, f, c, <<>>)
(* types around a type *)
Around(x) ==
    <<T("opt", "", <<>>, <<x>>, <<>>), T("seq", "", <<>>, <<x>>, <<>>), T("tuple", "", <<>>, <<x>>, <<>>),
      T("tuple", "", <<>>, <<x, U8>>, <<>>), T("map", "", <<>>, <<U8, x>>, <<>>), T("map", "", <<>>, <<x, Str>>, <<>>),
      T("nstruct", "S", <<>>, <<x>>, <<>>), T("nstruct", "Some", <<>>, <<x>>, <<>>), T("nstruct", "None", <<>>, <<x>>, <<>>),
      T("tstruct", "Some", <<>>, <<x, x>>, <<>>), T("struct", "S", <<"a">>, <<x>>, <<>>),
      T("struct", "Some", <<"a", "c">>, <<T("opt", "", <<>>, <<x>>, <<>>), x>>, <<>>),
      T("enum", "E", <<>>, <<>>, <<Var("uvar", "S", <<>>, <<>>), Var("nvar", "Some", <<>>, <<x>>), Var("tvar", "V", <<>>, <<x, U8>>),
                                   Var("svar", "W", <<"a">>, <<x>>)>>),
      T("enum", "E", <<>>, <<>>, <<Var("uvar", "None", <<>>, <<>>), Var("nvar", "S", <<>>, <<x>>), Var("tvar", "None2", <<>>, <<>>),
                                   Var("svar", "W", <<>>, <<>>)>>)>>
Grown(s) == FlattenSeq([i \in 1..Len(s) |-> Around(s[i])])
L1 == L0 \o Marks \o Grown(L0)
Types == CASE Level = 1 -> L1 [] Level = 2 -> L1 \o Grown(Marks \o Grown(L0))
           [] OTHER -> L1 \o Grown(Marks \o Grown(L0)) \o Grown(Grown(Grown(<<U8, Str, Plain("unit")>>)))

(* what the order of values sees of a tree *)
RECURSIVE Seen(_)
Seen(t) == IF t.k \in {"tuple", "cntr"} /\ t.c = <<>> THEN [k |-> "tuple", c |-> <<>>]
           ELSE [k |-> t.k, p |-> t.p, q |-> t.q, nm |-> t.nm, ks |-> [i \in 1..Len(t.ks) |-> Seen(t.ks[i])],
                 c |-> [i \in 1..Len(t.c) |-> Seen(t.c[i])]]
(* some values of a type, as a sequence of at most Most *)
Top(s) == IF Len(s) > Most THEN SubSeq(s, 1, Most) ELSE s
Two(s) == IF Len(s) > 2 THEN <<s[1], s[Len(s)]>> ELSE s
Each(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]
RECURSIVE Vals(_)
(* parts: the first values together, and the last ones *)
Combos(c) == LET v == [i \in 1..Len(c) |-> Vals(c[i])]
             IN IF c = <<>> THEN <<<<>>>> ELSE <<[i \in 1..Len(c) |-> v[i][1]], [i \in 1..Len(c) |-> v[i][Len(v[i])]]>>
Vals(t) ==
    CASE t.k = "bool" -> <<Word("bool", "true"), Word("bool", "false")>>
      [] t.k = "int" -> (CASE t.n = "u8" -> <<Num("int", "u8", One), Num("int", "u8", Max8), Num("int", "u8", NZero)>>
                          [] t.n = "i8" -> <<Num("int", "i8", Min8), Num("int", "i8", One)>>
                          [] t.n = "u64" -> <<Num("int", "u64", One), Num("int", "u64", Max64)>>
                          [] t.n = "u128" -> <<Num("int", "u128", Max128), Num("int", "u128", NZero)>>
                          [] t.n = "i128" -> <<Num("int", "i128", Min128), Num("int", "i128", One)>>)
      [] t.k = "f32" -> <<F32(Tenth32, Tenth64), F32(One, One)>>
      [] t.k = "f64" -> <<Num("f64", "f64", Half), Num("f64", "f64", NaN), Num("f64", "f64", One)>>
      [] t.k = "char" -> <<Word("char", "a"), Word("char", "'")>>
      [] t.k = "str" -> <<Word("str", "a"), Word("str", ""), Word("str", "ab")>>
      [] t.k = "bytes" -> <<Word("bytes", "6162"), Word("bytes", "ff"), Word("bytes", "")>>
      [] t.k = "unit" -> <<Word("unit", "")>>
      [] t.k = "opt" -> <<Word("none", "")>> \o Each(Top(Vals(t.c[1])), LAMBDA v : List("some", "", <<>>, <<v>>))
      [] t.k = "seq" -> LET v == Vals(t.c[1])
                        IN <<List("seq", "", <<>>, <<>>)>> \o Each(Two(v), LAMBDA x : List("seq", "", <<>>, <<x>>))
                           \o <<List("seq", "", <<>>, <<v[Len(v)], v[1], v[1]>>)>>
      [] t.k = "map" -> LET k == Vals(t.c[1])
                            v == Vals(t.c[2])
                            a == k[1]
                            b == k[Len(k)]
                            m(ks, c) == D("map", "", "", NZero, NZero, <<>>, ks, c)
                        IN <<m(<<>>, <<>>), m(<<a>>, <<v[Len(v)]>>)>>
                           \o (IF Seen(Enc(a)[1]) # Seen(Enc(b)[1]) THEN <<m(<<b, a>>, <<v[1], v[Len(v)]>>)>> ELSE <<>>)
      [] t.k = "enum" -> Top(FlattenSeq(Each(t.vs, LAMBDA w : Each(Combos(w.c), LAMBDA c : List(w.k, w.n, w.f, c)))))
      [] OTHER -> Each(Combos(t.c), LAMBDA c : List(t.k, t.n, t.f, c))

(* computed once; n walks over it *)
Walkers == 16
ASSUME TLCSet(1, Types)
P == TLCGet(1)
VARIABLE n
Init == n \in 1..(IF Len(P) < Walkers THEN Len(P) ELSE Walkers)
Next == n + Walkers <= Len(P) /\ n' = n + Walkers
Spec == Init /\ [][Next]_n

(* bytes in hexadecimal that are text *)
Texts == [h \in {"", "6162"} |-> IF h = "" THEN "" ELSE "ab"]
RECURSIVE Dress(_)
Dress(t) == [t EXCEPT !.u = IF t.k = "barr" /\ t.p \in DOMAIN Texts THEN <<Texts[t.p]>> ELSE <<>>,
                      !.ks = [i \in 1..Len(t.ks) |-> Dress(t.ks[i])],
                      !.c = [i \in 1..Len(t.c) |-> Dress(t.c[i])]]

RoundTrip ==
    LET v == Vals(P[n])
    IN \A i \in 1..Len(v) :
        LET e == Enc(v[i])
        IN /\ e # <<>>
           /\ Dec(Dress(e[1]), P[n], TRUE) = <<Value(v[i])>>
           /\ Dec(Dress(e[1]), P[n], FALSE) = <<Value(v[i])>>

Cfgs == <<[ip |-> TRUE, it |-> TRUE, ic |-> TRUE, is |-> TRUE, im |-> TRUE, w |-> -1],
          [ip |-> FALSE, it |-> TRUE, ic |-> TRUE, is |-> FALSE, im |-> FALSE, w |-> 0],
          [ip |-> FALSE, it |-> TRUE, ic |-> TRUE, is |-> TRUE, im |-> FALSE, w |-> 12]>>
Ids(t) == {t.id, <<>>, <<"Some">>, <<"None">>, <<"S">>, <<"V">>}
Say(x) == PrintT(ToJson([in |-> x]))
Out(v) ==
    CASE Emit \in {"K14", "K17"} -> \A i \in 1..Len(v) : Say([d |-> v[i], t |-> P[n], real |-> -1])
      [] Emit = "K15" -> \A i \in 1..Len(v) : Say([d |-> v[i], t |-> P[n], real |-> -1, cfg |-> Cfgs[1 + ((n + i) % 3)]])
      [] Emit = "K16" -> \A i \in 1..Len(v) :
            LET tree == Dress(Enc(v[i])[1])
                ids == SetToSeq(Ids(tree))
            IN \A j \in 1..Len(P) : \A k \in 1..Len(ids) :
                (n * 7 + i * 5 + j * 11 + k) % Stride = 0 =>
                    Say([tree |-> [tree EXCEPT !.id = ids[k]], t |-> P[j], real |-> -1, own |-> ((i + j + k) % 2 = 0)])
Emitted == Emit = "" \/ Out(Vals(P[n]))
=============================================================================
