------------------------------ MODULE MC_Place ------------------------------
(***************************************************************************)
(* All histories of a few steps on small values, owned or borrowed at      *)
(* every place: values are copied, made owned, lent, moved into lists,     *)
(* written and read, encoded and decoded.  No memory has two owners, and   *)
(* what is borrowed is still held by somebody.                             *)
(***************************************************************************)
EXTENDS KPlace, Json, IOUtils
CONSTANTS Depth, Wide
Emit == IOEnv.KV_EMIT

Str(id, p) == Leaf("str", id, p, "", 0)
Barr(id, p) == Leaf("barr", id, p, "", 0)
Values ==
    << Str(<<"Id">>, "text"),
       Comp("tuple", <<>>, <<>>, <<>>, <<Str(<<>>, "one"), Barr(<<>>, "0102")>>),
       Comp("cntr", <<"Id">>, <<"f">>, <<>>, <<Str(<<>>, "")>>),
       Comp("seq", <<>>, <<>>, <<>>, <<Str(<<>>, "one"), Str(<<>>, "one")>>),
       Comp("map", <<>>, <<>>, <<Str(<<>>, "key")>>, <<Comp("tuple", <<"Some">>, <<>>, <<>>, <<Barr(<<>>, "")>>)>>),
       Comp("cntr", <<>>, <<"f", "g">>, <<>>, <<Comp("map", <<"M">>, <<>>, <<>>, <<>>),
                                                 Comp("cntr", <<"N">>, <<"h">>, <<>>, <<Str(<<"s">>, "x")>>)>>) >>
Few == 1..Wide
Cases == SetToSeq(UNION {{[t |-> Values[i], own |-> f] : f \in [1..Len(Spots(Values[i])) -> BOOLEAN]} : i \in Few})
ASSUME TLCSet(1, Cases)
C == TLCGet(1)

Kinds == <<"clone", "own", "brw", "same", "join", "parse", "enc", "dec">>
Widths == [clone |-> 0, own |-> 0, brw |-> 1, same |-> 1, join |-> 1, parse |-> 6, enc |-> 0, dec |-> 0]

VARIABLES c, s, h, ext
vars == <<c, s, h, ext>>
Init == /\ c \in 1..Len(C)
        /\ s = Start(C[c].t, C[c].own)
        /\ h = <<>>
        /\ ext = {s.out[i].m : i \in {j \in 1..Len(s.out) : ~s.out[j].o}}
Next == /\ Len(h) < Depth
        /\ \E k \in 1..Len(Kinds), a \in 1..Len(s.slots), b \in 1..Len(s.slots) :
             LET o == Kinds[k]
                 op == [o |-> o, a |-> a, b |-> b, w |-> Widths[o] + ((c + Len(h) + a) % 5)]
                 r == Step(s, op, <<>>)
             IN /\ o # "join" => b = 1
                /\ r.out # No
                /\ s' = r
                /\ h' = Append(h, op)
                /\ ext' = IF o = "parse" THEN ext \union {r.out[i].m : i \in {j \in 1..Len(r.out) : ~r.out[j].o}} ELSE ext
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars

Here == {i \in 1..Len(s.slots) : s.slots[i].st # "gone"}
Held(o) == UNION {{<<i, j>> : j \in {x \in 1..Len(s.slots[i].ps) : s.slots[i].ps[x].o = o /\ ~s.slots[i].ps[x].e}} : i \in Here}
Mem(x) == s.slots[x[1]].ps[x[2]].m
OneOwner == \A x \in Held(TRUE), y \in Held(TRUE) : x # y => Mem(x) # Mem(y)
Backed == \A x \in Held(FALSE) : Mem(x) \in ext \/ \E y \in Held(TRUE) : Mem(y) = Mem(x) /\ s.slots[y[1]].st = "lent"
Numbered == \A i \in Here : \A j \in 1..Len(s.slots[i].ps) : (s.slots[i].ps[j].m = 0) = s.slots[i].ps[j].e /\ s.slots[i].ps[j].m < s.free

Emitted == Emit = "" \/ Len(h) < Depth \/ PrintT(ToJson([in |-> [tree |-> C[c].t, own |-> C[c].own, how |-> (c % 12), ops |-> h]]))
=============================================================================
