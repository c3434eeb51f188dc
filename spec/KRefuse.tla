------------------------------- MODULE KRefuse -------------------------------
(***************************************************************************)
(* What refusals say.  A message is a text; an accepted attempt says       *)
(* nothing (<<>>), a refused one says <<message>>.                         *)
(***************************************************************************)
EXTENDS KNames, KTree

IdSays(s) ==
    IF IsId(s) THEN <<>>
    ELSE <<"identity '" \o s \o "' contains invalid characters. Invalid characters: '(){}[]<> ,./\\='">>

FirstIn(s, C) == At(s, CHOOSE i \in 1..Len(s) : At(s, i) \in C /\ \A j \in 1..(i - 1) : At(s, j) \notin C)
FieldWhy(s) ==
    "invalid field name: " \o
    (IF s = "" THEN "name is empty"
     ELSE IF At(s, 1) \in Digits THEN "name can not begin with digit"
     ELSE "invalid character '" \o FirstIn(s, NotInField) \o "' exists in name '" \o s \o "'")
(* one of the illegal names of a list is reported *)
FieldsSay(names) ==
    LET bad == {i \in 1..Len(names) : ~IsField(names[i])}
    IN IF bad = {} THEN {<<>>} ELSE {<<FieldWhy(names[i])>> : i \in bad}

(* outcomes of formatter requests, as KFormatter names them *)
Line(r) == CASE r = 0 -> "inline" [] r = 1 -> "concise" [] r = 2 -> "verbose"
High == {<<m, r>> \in (0..2) \X (0..2) : m < r}
RequestSays(res) ==
    CASE res = "ok" -> <<>>
      [] res = "bounds" -> <<"the requested item index is outside the range of the formatter">>
      [] res = "pinline" -> <<"parent is 'inline', child must be formatted as 'inline'">>
      [] res = "pconcise" -> <<"parent is 'concise', child must be formatted as 'inline' or 'concise'">>
      [] res = "root" -> <<"requested to format root as verbose but the root is a sequence or a map">>
      [] OTHER -> LET h == CHOOSE q \in High : res = "high" \o ToString(q[1]) \o ToString(q[2])
                  IN <<"requested format '" \o Line(h[2]) \o "' is higher than the value maximally allows '" \o Line(h[1]) \o "'">>

NoKey == <<"no key was available when trying to serialize map value">>
NotANumber == <<"could not parse input string as a number">>
NotAnInteger == <<"original number is outside integers range">>
Custom(s) == <<"custom error: " \o s>>

(***************************************************************************)
(* Decoding a value of the wrong kind names what was found and what was    *)
(* expected.  x spells the payload of a number or a string: x.f is         *)
(* "float", "int" (64 bits) or "wide" for numbers, x.n counts the          *)
(* characters of a string.                                                 *)
(***************************************************************************)
Found(t, x) ==
    CASE t.k = "unit" -> "unit value"
      [] t.k = "bool" -> "boolean `" \o t.p \o "`"
      [] t.k = "num" -> (CASE x.f = "int" -> "integer `" \o x.p \o "`" [] x.f = "float" -> "floating point `" \o x.p \o "`"
                           [] x.f = "wide" -> "integer")
      [] t.k = "str" -> "string " \o x.p
      [] t.k = "barr" -> "byte array"
      [] t.k = "tuple" -> "tuple"
      [] t.k = "cntr" -> "container"
      [] t.k = "seq" -> "sequence"
      [] t.k = "map" -> "map"
Kinded(t, x, want) == Custom("invalid type: " \o Found(t, x) \o ", expected " \o want)
Length(t, want) == Custom("invalid length " \o ToString(Len(t.c)) \o ", expected " \o want)

Ints == {"u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128"}
(* which numbers fit is not said here; x.big and x.small are std's words for one that does not *)
IntSays(t, x, want) ==
    IF t.k = "num" THEN {<<>>, Custom("original number is outside integers range"), Custom(x.big), Custom(x.small)}
    ELSE {Kinded(t, x, want)}
FloatSays(t, x, want) == IF t.k = "num" THEN <<>> ELSE Kinded(t, x, want)
CharSays(t, x) == IF t.k = "str" /\ x.n = 1 THEN <<>> ELSE Kinded(t, x, "char")
Empty(t) == t.k = "tuple" /\ t.c = <<>>
UnitStructSays(t, x) == IF Empty(t) THEN <<>> ELSE Kinded(t, x, "unit struct")
AsEnum(t, says) == IF t.id = <<>> THEN Custom("enum but no identity is present") ELSE says
UnitSays(t, x) == AsEnum(t, IF t.k = "unit" \/ Empty(t) THEN <<>> ELSE Kinded(t, x, "unit enum variant"))
NewtypeSays(t, x) ==
    AsEnum(t, IF t.k # "tuple" THEN Kinded(t, x, "newtype enum variant")
              ELSE IF Len(t.c) = 1 THEN <<>> ELSE Length(t, "a tuple with a single element was expected"))
TupleSays(t, x, n) ==
    AsEnum(t, IF t.k # "tuple" THEN Kinded(t, x, "tuple enum variant")
              ELSE IF Len(t.c) = n THEN <<>> ELSE Length(t, "a tuple with " \o ToString(n) \o " element(s) was expected"))
StructSays(t, x) == AsEnum(t, IF t.k = "cntr" \/ Empty(t) THEN <<>> ELSE Kinded(t, x, "struct enum variant"))

Decoded(t, x, m) ==
    /\ \A w \in Ints : m[w] \in IntSays(t, x, w)
    /\ \A w \in {"f32", "f64"} : m[w] = FloatSays(t, x, w)
    /\ m["char"] = CharSays(t, x)
    /\ m["unit struct"] = UnitStructSays(t, x)
    /\ m["unit enum variant"] = UnitSays(t, x)
    /\ m["newtype enum variant"] = NewtypeSays(t, x)
    /\ \A n \in 0..3 : m["tuple enum variant"][n + 1] = TupleSays(t, x, n)
    /\ m["struct enum variant"] = StructSays(t, x)
    /\ \A w \in {"as_u128", "as_i128"} : m[w] \in {<<>>} \union (IF t.k = "num" THEN {NotAnInteger} ELSE {})

Says(in, obs) ==
    CASE in.o = "id" -> Len(obs.m) = 28 /\ \A i \in 1..Len(obs.m) : obs.m[i] = IdSays(in.s[1])
      [] in.o = "custom" -> Len(obs.m) = 15 /\ \A i \in 1..Len(obs.m) : obs.m[i] = Custom(in.s[1])
      [] in.o = "field" -> Len(obs.m) >= 3 /\ \A i \in 1..Len(obs.m) : obs.m[i] \in FieldsSay(in.s)
      [] in.o = "text" -> \/ obs.m = <<<<>>>>
                          \/ obs.m = <<NotANumber, NotANumber>>
      [] in.o = "nokey" -> obs.m = <<NoKey>>
      [] in.o = "dec" -> Decoded(in.tree, obs.x, obs.m)
      [] in.o = "req" -> /\ Len(obs.m) = Len(in.ops)
                         /\ \A i \in 1..Len(obs.m) : obs.m[i].msg = RequestSays(obs.m[i].res)
=============================================================================
