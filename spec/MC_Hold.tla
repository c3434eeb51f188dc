------------------------------ MODULE MC_Hold ------------------------------
(***************************************************************************)
(* Sessions of Depth operations on holders over three sources.             *)
(***************************************************************************)
EXTENDS KHold, Json, IOUtils, TLC
CONSTANTS Depth, Codes
Emit == IOEnv.KV_EMIT
Plain == <<97, 98>>
Source == <<<<>>, <<Codes[1]>>, Codes>>
Op(o, a, b, v) == [o |-> o, a |-> a, b |-> b, v |-> v]
VARIABLES H, prev, ops
vars == <<H, prev, ops>>
Init == H = <<>> /\ prev = <<>> /\ ops = <<>>
Choices ==
    {Op(o, 0, b, <<>>) : o \in {"brw", "from"}, b \in 1..3}
    \union {Op(o, 0, 0, v) : o \in {"own", "fromown"}, v \in {<<>>, Codes}}
    \union {Op(o, a, 0, <<>>) : o \in {"clone", "into", "clear", "cut"}, a \in 1..Len(H)}
    \union {Op(o, a, 0, <<Codes[1]>>) : o \in {"push", "set"}, a \in 1..Len(H)}
Next == /\ Len(ops) < Depth
        /\ \E op \in Choices : H' = Step(Source, H, op) /\ prev' = H /\ ops' = Append(ops, op)
Spec == Init /\ [][Next]_vars
LastOp == ops[Len(ops)]
(* one holder is made or changed *)
Frame == ops = <<>> \/
    /\ \A i \in 1..Len(prev) : (LastOp.o \in Makes \/ i # LastOp.a) => H[i] = prev[i]
    /\ Len(H) = Len(prev) + (IF LastOp.o \in Makes THEN 1 ELSE 0)
(* the order is total and its equality is sameness *)
Ordered == \A i, j \in 1..Len(H) :
    /\ Cmp(H[i], H[j]) = -Cmp(H[j], H[i]) /\ (Cmp(H[i], H[j]) = 0 <=> H[i] = H[j])
    /\ \A k \in 1..Len(H) : Cmp(H[i], H[j]) <= 0 /\ Cmp(H[j], H[k]) <= 0 => Cmp(H[i], H[k]) <= 0
Emitted == Emit = "" \/ Len(ops) < Depth
    \/ \A ty \in {"text", "bytes"} : PrintT(ToJson([in |-> [ty |-> ty, src |-> Source, ops |-> ops]]))
=============================================================================
