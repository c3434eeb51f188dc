------------------------------- MODULE MC_Show -------------------------------
(***************************************************************************)
(* Every small value with identities on no, all, or every other node: its  *)
(* debug forms, and that different values have different ones.             *)
(***************************************************************************)
EXTENDS KGen, KShow, Json, IOUtils
CONSTANT Families
Emit == IOEnv.KV_EMIT
QFamilies == {<<1, 5>>, <<2, 5>>, <<3, 4>>, <<4, 1>>}
TFamilies == {<<1, 5>>, <<2, 5>>, <<3, 5>>, <<4, 3>>, <<5, 1>>}

Walkers == 16
ASSUME TLCSet(1, SetToSeq(UNION {Family(f[1], f[2], 0..3) : f \in Families}))
P == TLCGet(1)
VARIABLE n
Init == n \in 1..Walkers
Next == n + Walkers <= Len(P) /\ n' = n + Walkers
Spec == Init /\ [][Next]_n

Quoted(s) == "\"" \o s \o "\""
Spelled(x) ==
    CASE x.k = "num" -> (IF x.p = "1" THEN "Uint(1)" ELSE "Float(1.5)")
      [] x.k = "str" -> (CASE x.p = "\"'" -> Quoted("\\\"'") [] x.p = "a\nb: c" -> Quoted("a\\nb: c") [] OTHER -> Quoted(x.p))
      [] x.k = "barr" -> "[0, 255]"
      [] OTHER -> ""
Spellings(N) == [i \in 1..Len(N) |-> [id |-> IF N[i].id = <<>> THEN "" ELSE Quoted(N[i].id[1]), p |-> Spelled(N[i])]]

ASSUME LET line(i) == LET N == Nav(P[i]) IN Line(N, Spellings(N), 1)
       IN Cardinality({line(i) : i \in 1..Len(P)}) = Len(P)
Emitted == Emit = ""
    \/ PrintT(ToJson([in |-> [tree |-> Wire(P[n])], exp |-> Shown(P[n], Spellings(Nav(P[n])))]))
=============================================================================
