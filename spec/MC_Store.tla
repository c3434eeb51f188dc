------------------------------ MODULE MC_Store ------------------------------
(***************************************************************************)
(* Sessions of at most Depth operations on small values.  An edit leaves   *)
(* every place that is not on its path as it was; other values of the      *)
(* store never change; copies are what was copied.                         *)
(***************************************************************************)
EXTENDS KStore, Json, IOUtils
CONSTANTS Depth, Trees,
          Mode             \* "copies" (K21) or "reads" (K22)
Emit == IOEnv.KV_EMIT

T(k, id, p, nm, ks, c) == [k |-> k, id |-> id, p |-> p, n |-> "", q |-> NZero, u |-> 0, nm |-> nm, ks |-> ks, c |-> c]
L(k, p) == T(k, <<>>, p, <<>>, <<>>, <<>>)
Str(p) == [L("str", p) EXCEPT !.u = Len(p)]
Number(h, p, s, e, top) == [L("num", p) EXCEPT !.n = h, !.q = [c |-> "fin", s |-> s, e |-> e, m |-> <<top, 0, 0, 0, 0, 0, 0, 0>>]]
Five == Number("u", "5", 1, 3, 40960)
Minus == Number("i", "-1", -1, 1, 32768)
Half == Number("f", "1.5", 1, 1, 49152)
Two == Number("f", "2", 1, 2, 32768)
Id(x, t) == [t EXCEPT !.id = <<x>>]
Tup(c) == T("tuple", <<>>, "", <<>>, <<>>, c)
Seq1(c) == T("seq", <<>>, "", <<>>, <<>>, c)
Cntr(nm, c) == T("cntr", <<>>, "", nm, <<>>, c)
Map(ks, c) == T("map", <<>>, "", <<>>, ks, c)
Yes == L("bool", "true")
Leaves == {L("unit", ""), Id("bool", Yes), Five, Id("i8", Minus), Half, Two, Id("str", Str("x")), Str(""), Str("ab"), Id("barr", L("barr", "00ff"))}
Simple == {Id("T", Tup(<<Yes, Id("s", Str("x"))>>)), Seq1(<<Five, Minus>>), Id("C", Cntr(<<"a", "b">>, <<Str("ab"), Id("n", Five)>>)),
           Map(<<Id("K", Str("k"))>>, <<Id("V", Yes)>>), Tup(<<>>), Cntr(<<>>, <<>>)}
Nested == {Cntr(<<"a", "b">>, <<Id("L", Seq1(<<Str("x")>>)), Map(<<Five>>, <<Id("E", Tup(<<>>))>>)>>),
           Seq1(<<Id("in", Cntr(<<"a">>, <<L("barr", "07")>>)), Tup(<<Half>>)>>),
           Map(<<Tup(<<Five>>), Id("u", L("unit", ""))>>, <<Cntr(<<"a">>, <<Yes>>), Seq1(<<Seq1(<<>>)>>)>>),
           Cntr(<<"a", "b", "c">>, <<Cntr(<<"b">>, <<Five>>), Tup(<<Yes>>), L("barr", "")>>)}
QTrees == {Id("str", Str("x")), Id("barr", L("barr", "00ff")), Five} \union Simple
TTrees == Leaves \union Simple \union Nested

NoStep == [w |-> "i", i |-> 0, n |-> "", k |-> <<>>]
StepI(i) == [NoStep EXCEPT !.i = i]
StepN(n) == [NoStep EXCEPT !.w = "n", !.n = n]
StepK(k) == [NoStep EXCEPT !.w = "k", !.k = <<k>>]
StepTo(t, i) == CASE t.k \in {"tuple", "seq"} -> StepI(i) [] t.k = "cntr" -> StepN(t.nm[i]) [] t.k = "map" -> StepK(t.ks[i])
RECURSIVE Paths(_)
Paths(t) == {<<>>} \union UNION {{<<StepTo(t, i)>> \o p : p \in Paths(t.c[i])} : i \in 1..Len(t.c)}
Lost == {<<StepI(1), StepI(9)>>, <<StepN("zz")>>, <<StepK(Yes)>>}

Op(o, a, at) == [o |-> o, a |-> a, at |-> at, acc |-> "", how |-> "", v |-> <<>>, name |-> "", key |-> <<>>, names |-> <<>>]
E(acc, how, v, name, key) == [acc |-> acc, how |-> how, v |-> <<v>>, name |-> name, key |-> <<key>>]
New == Id("New", Tup(<<Id("x", Half)>>))
ListHows == {"push", "pop", "clear", "front", "reverse"}
Plain == {E("bool", "set", L("bool", "false"), "", New), E("num", "set", Minus, "", New),
          E("str", "set", Str("yz"), "", New), E("str", "append", Str("yz"), "", New),
          E("barr", "set", L("barr", "0102"), "", New), E("barr", "append", L("barr", "0102"), "", New),
          E("id", "set", Id("Other", Yes), "", New), E("id", "set", Yes, "", New), E("val", "set", New, "", New), E("set", "set", New, "", New),
          E("cntr", "insert", New, "a", New), E("cntr", "insert", New, "z", New), E("cntr", "remove", New, "b", New), E("cntr", "clear", New, "", New),
          E("map", "insert", New, "", Str("k")), E("map", "insert", New, "", Two), E("map", "remove", New, "", Id("w", Five)), E("map", "clear", New, "", New)}
         \union {E(a, h, New, "", New) : a \in {"tuple", "seq", "list"}, h \in ListHows}
Named1 == UNION {{E("get_bool", "set", L("bool", "false"), n, New), E("get_num", "set", Half, n, New), E("get_str", "append", Str("q"), n, New),
                  E("get_barr", "append", L("barr", "ff"), n, New), E("get_cntr", "insert", New, n, Str("z")), E("get_cntr", "remove", New, n, Str("b")),
                  E("get_map", "insert", New, n, Five), E("get_map", "clear", New, n, Five)}
                 \union {E(a, h, New, n, New) : a \in {"get_tuple", "get_seq", "get_list"}, h \in {"push", "reverse"}} : n \in {"a", "b", "zz"}}
Edits == IF Mode = "reads" THEN Plain \union Named1 ELSE Plain
EditOp(o, a, at, e) == [Op(o, a, at) EXCEPT !.acc = e.acc, !.how = e.how, !.v = e.v, !.name = e.name, !.key = e.key]

VARIABLES first, S, prev, hist, brw
vars == <<first, S, prev, hist, brw>>
Init == first \in Trees /\ S = <<first>> /\ prev = <<first>> /\ hist = <<>> /\ brw \in BOOLEAN
Do(op) == LET q == Step(S, op) IN S' = q.all /\ prev' = S /\ hist' = Append(hist, [op |-> op, hit |-> q.hit]) /\ UNCHANGED <<first, brw>>
Hits(op) == LET t == Get(S[op.a], op.at) IN t # <<>> /\ Edited(t[1], op) # <<>>
Copy == \E a \in 1..Len(S) : \E p \in Paths(S[a]) :
    \/ \E h \in {"clone", "view", "cloneview", "viewview", "vclone", "vview"} : Do([Op("copy", a, p) EXCEPT !.how = h])
    \/ Do(Op("own", a, p))
    \/ Do(Op("look", a, p))
(* edits that find nothing to edit end a session of reads *)
Final == Mode = "reads" /\ Len(hist) = Depth - 1
Edit == \E a \in 1..Len(S) : \E p \in Paths(S[a]) \union (IF Final THEN Lost ELSE {}) : \E e \in Edits :
    \E o \in (IF Mode = "copies" /\ a = 1 THEN {"edit", "vedit"} ELSE {"edit"}) :
        /\ Final \/ Hits(EditOp(o, a, p, e))
        /\ Do(EditOp(o, a, p, e))
Next == Len(hist) < Depth /\ IF Mode = "copies" /\ Len(hist) % 2 = 0 THEN Copy ELSE Edit
Spec == Init /\ [][Next]_vars

LastOp == hist[Len(hist)]
Starts(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Frame == hist = <<>> \/
    LET op == LastOp.op
        target == IF op.o = "edit" THEN op.a ELSE IF Len(S) > Len(prev) THEN Len(S) ELSE 0
    IN /\ \A i \in 1..Len(prev) : i # target => S[i] = prev[i]
       /\ (op.o = "copy" => S[Len(S)].c = Get(prev[op.a], op.at)[1].c)
       /\ (op.o \in {"edit", "vedit"} =>
             \A q \in Paths(prev[op.a]) :
                (~Starts(op.at, q) /\ ~Starts(q, op.at)) => Get(S[target], q) = Get(prev[op.a], q))
       /\ (op.o \in {"edit", "vedit"} /\ ~LastOp.hit => S[target] = prev[op.a])
       /\ (op.o \in {"edit", "vedit"} /\ op.acc = "set" /\ LastOp.hit => Get(S[target], op.at) = op.v)
(* for K22 every place is read before the first and after the last edit *)
ReadAll(s) == LET ps == SetToSeq(Paths(s)) IN [i \in 1..Len(ps) |-> [Op("read", 1, ps[i]) EXCEPT !.names = <<"a", "b", "zz">>]]
Done == [i \in 1..Len(hist) |-> hist[i].op]
Ops == IF Mode = "copies" THEN Done ELSE ReadAll(first) \o Done \o ReadAll(S[1])
Emitted == Emit = "" \/ Len(hist) < Depth \/ PrintT(ToJson([in |-> [tree |-> first, brw |-> brw, ops |-> Ops]]))
=============================================================================
