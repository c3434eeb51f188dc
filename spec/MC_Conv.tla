------------------------------ MODULE MC_Conv ------------------------------
(***************************************************************************)
(* Every type of at most two wrappers around a leaf, tuples and arrays of  *)
(* every length and the constructors, with a few values each.              *)
(***************************************************************************)
EXTENDS KConv, Json, IOUtils
CONSTANTS Inner            \* leaves under two wrappers
Emit == IOEnv.KV_EMIT
Some == {"u8", "String"}
Few == {"u8", "String", "char", "fallible"}
Wraps == {"vec", "box", "opt", "ok", "err", "arr1", "arr2", "tup1", "tup2"}
Ints == {"u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"}
Leaves == Ints \union {"f32", "f64", "unit", "bool", "char", "String", "str", "kserd", "fallible"}

Fin(e, m) == [c |-> "fin", s |-> 1, e |-> e, m |-> m \o [i \in 1..(8 - Len(m)) |-> 0]]
Num1(n, b, q) == [k |-> "num", n |-> n, b |-> b, q |-> q, c |-> <<>>]
Of(k, p) == [k |-> k, p |-> p, c |-> <<>>]
Node(k, c) == [k |-> k, c |-> c]
Seven(n) == Num1(n, "7", Fin(3, <<57344>>))
None1(n) == Num1(n, "0", NZero)
Tenth(n) == Num1(n, "0.1", Fin(-3, <<52428, 52428, 52428, 53248>>))
A == [k |-> "seq", id |-> <<"mine">>, p |-> "", nm |-> <<>>, ks |-> <<>>, c |-> <<Tree("bool", <<>>, "true", <<>>)>>]
Leaf1(l) ==
    CASE l \in Ints -> {Seven(l), None1(l)}
      [] l \in {"f32", "f64"} -> {Tenth(l), Seven(l)}
      [] l = "unit" -> {Of("unit", "")}
      [] l = "bool" -> {Of("bool", "true"), Of("bool", "false")}
      [] l = "char" -> {Of("char", "x"), Of("char", "\"")}
      [] l \in {"String", "str"} -> {Of(l, ""), Of(l, "a b")}
      [] l = "kserd" -> {[k |-> "kserd", v |-> A, c |-> <<>>]}
      [] l = "fallible" -> {Of("fallible", "good"), Of("fallible", "a.b")}
Wrap(w, X) ==
    CASE w = "vec" -> {Node("vec", <<>>)} \union {Node("vec", <<x>>) : x \in X} \union {Node("vec", <<x, y>>) : x \in X, y \in X}
      [] w = "box" -> {Node("box", <<x>>) : x \in X}
      [] w = "opt" -> {Node("none", <<>>)} \union {Node("some", <<x>>) : x \in X}
      [] w = "ok" -> {Node("ok", <<x>>) : x \in X} \union {Node("err", <<Of("String", "no")>>)}
      [] w = "err" -> {Node("err", <<x>>) : x \in X} \union {Node("ok", <<Seven("u8")>>)}
      [] w = "arr1" -> {Node("array", <<x>>) : x \in X}
      [] w = "arr2" -> {Node("array", <<x, y>>) : x \in X, y \in X}
      [] w = "tup1" -> {Node("tuple", <<x>>) : x \in X}
      [] w = "tup2" -> {Node("tuple", <<x, Seven("u16")>>) : x \in X}
In(l, w, X) == {[l |-> l, w |-> w, d |-> x] : x \in X}
Elems == <<Seven("u8"), Of("String", "s"), Of("bool", "true"), Of("char", "c"), None1("i16"), Tenth("f64"), Of("unit", ""),
           Node("some", <<Seven("u8")>>), Node("vec", <<Seven("u8"), None1("u8")>>), Of("str", "t"), Seven("u64"), Node("box", <<None1("i8")>>)>>
Digit(n) == Num1("u8", ToString(n), IF n = 0 THEN NZero ELSE
    LET e == CHOOSE e \in 1..8 : 2^(e - 1) <= n /\ n < 2^e IN Fin(e, <<n * 2^(16 - e)>>))
Long == {[l |-> "tuple" \o ToString(n), w |-> <<>>, d |-> Node("tuple", SubSeq(Elems, 1, n))] : n \in 1..12}
        \union {[l |-> "bytes" \o ToString(n), w |-> <<>>, d |-> Node("array", [i \in 1..n |-> Digit(i)])] : n \in 1..32}
        \union {[l |-> "texts" \o ToString(n), w |-> <<>>, d |-> Node("array", [i \in 1..n |-> Of("String", ToString(i))])] : n \in 1..32}
New(n, p, nm, ks, c) == [k |-> "new", n |-> n, p |-> p, nm |-> nm, ks |-> ks, c |-> c]
Unit1 == Tree("unit", <<"u">>, "", <<>>)
News == {New(n, p, <<>>, <<>>, <<>>) : n \in {"str", "string"}, p \in {"", "a", "a b"}} \union {New(n, p, <<>>, <<>>, <<>>) : n \in {"barr", "barrv"}, p \in {"", "00ff"}}
        \union {New("bool", p, <<>>, <<>>, <<>>) : p \in {"true", "false"}} \union {New("unit", "", <<>>, <<>>, <<>>), New("new", "", <<>>, <<>>, <<A>>)}
        \union {New("cntr", "", <<"a", "b">>, <<>>, <<A, Unit1>>), New("map", "", <<>>, <<A, Unit1>>, <<Unit1, A>>),
                New("cntr", "", <<>>, <<>>, <<>>), New("map", "", <<>>, <<>>, <<>>)}
Ins == UNION {In(l, <<>>, Leaf1(l)) : l \in Leaves}
       \union UNION {In(l, <<w>>, Wrap(w, Leaf1(l))) : l \in Leaves, w \in Wraps}
       \union UNION {In(l, <<v, w>>, Wrap(w, Wrap(v, Leaf1(l)))) : l \in Inner, v \in Wraps, w \in Wraps}
       \union Long \union In("new", <<>>, News)

Walkers == 16
ASSUME TLCSet(1, SetToSeq(Ins))
P == TLCGet(1)
VARIABLE n
Init == n \in 1..Walkers
Next == n + Walkers <= Len(P) /\ n' = n + Walkers
Spec == Init /\ [][Next]_n

(* the primitive contents in order are those of the data *)
RECURSIVE Inside(_), Given(_)
Inside(t) == IF t.k = "num" THEN <<<<t.id[1], t.q>>>> ELSE IF t.k = "unit" THEN <<>> ELSE IF IsPrim(t.k) THEN <<<<t.p, NZero>>>>
             ELSE FoldLeft(LAMBDA a, x : a \o Inside(x), <<>>, t.c)
Given(d) == IF d.k = "num" THEN <<<<d.n, d.q>>>> ELSE IF d.k \in {"unit", "fallible"} THEN <<>> ELSE IF d.k = "kserd" THEN Inside(d.v)
            ELSE IF d.k \in {"bool", "char", "String", "str"} THEN <<<<d.p, NZero>>>>
            ELSE FoldLeft(LAMBDA a, x : a \o Given(x), <<>>, d.c)
RECURSIVE Fine(_)
Fine(d) == (d.k = "fallible" => IsId(d.p)) /\ \A i \in 1..Len(d.c) : Fine(d.c[i])
Kept == LET d == P[n].d
            x == Conv(d)
        IN d.k # "new" => (Fine(d) <=> x # <<>>) /\ (x # <<>> => Inside(x[1]) = Given(d))
Emitted == Emit = "" \/ PrintT(ToJson([in |-> P[n]]))
=============================================================================
