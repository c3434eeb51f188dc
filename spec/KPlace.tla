------------------------------- MODULE KPlace -------------------------------
(***************************************************************************)
(* Where the text and the bytes of values are.  A place is an identity, a  *)
(* text, a byte array or a field name of a value, in depth-first order     *)
(* (identity, content, names before their values, keys before values):     *)
(*   [k, e, o, m]  k kind, e empty, o owned, m the memory it is in         *)
(* Memory of empty contents is 0, other memory is numbered from 1.         *)
(* Values are in slots: "live", "lent" (something borrows from it) or      *)
(* "gone" (moved away).                                                    *)
(***************************************************************************)
EXTENDS KTree

Spot(k, s) == <<[k |-> k, e |-> s = ""]>>
RECURSIVE Spots(_)
Spots(t) ==
    (IF t.id = <<>> THEN <<>> ELSE Spot("id", t.id[1]))
    \o (IF t.k \in {"str", "barr"} THEN Spot(t.k, t.p) ELSE <<>>)
    \o FoldLeft(LAMBDA a, i : a \o (IF t.k = "cntr" THEN Spot("name", t.nm[i]) ELSE <<>>)
                                \o (IF t.k = "map" THEN Spots(t.ks[i]) ELSE <<>>) \o Spots(t.c[i]),
                <<>>, Idx(Len(t.c)))

(* each place with its owner; those that `new` tells apart get new memory *)
Put(ps, free, own(_), new(_)) ==
    LET put(a, p) == LET fresh == new(p) /\ ~p.e
                     IN [free |-> a.free + (IF fresh THEN 1 ELSE 0),
                         ps |-> Append(a.ps, [k |-> p.k, e |-> p.e, o |-> own(p),
                                              m |-> IF p.e THEN 0 ELSE IF fresh THEN a.free ELSE p.m])]
    IN FoldLeft(put, [free |-> free, ps |-> <<>>], ps)

Start(t, own) ==
    LET sp == Spots(t)
        ps == [i \in 1..Len(sp) |-> [k |-> sp[i].k, e |-> sp[i].e, o |-> own[i], m |-> 0]]
        r == Put(ps, 1, LAMBDA p : p.o, LAMBDA p : TRUE)
    IN [free |-> r.free, slots |-> <<[st |-> "live", ps |-> r.ps]>>, out |-> r.ps]

No == <<[k |-> "no", e |-> FALSE, o |-> FALSE, m |-> 9]>>
Refused(s) == [s EXCEPT !.out = No]
Made(s, r, slots) == [free |-> r.free, slots |-> Append(slots, [st |-> "live", ps |-> r.ps]), out |-> r.ps]
With(s, a, st) == [s.slots EXCEPT ![a].st = st]
Keep(s, ps) == [free |-> s.free, ps |-> ps]

(* an owned copy may move or copy what is owned already; seen tells which *)
Copied(ps, seen) == [i \in 1..Len(ps) |-> [k |-> ps[i].k, e |-> ps[i].e, o |-> ps[i].o, m |-> ps[i].m,
                                           c |-> i <= Len(seen) /\ seen[i][2] # ps[i].m]]

Step(s, op, seen) ==
    IF op.a > Len(s.slots) \/ op.b > Len(s.slots) THEN Refused(s)
    ELSE LET x == s.slots[op.a]
             here == x.st # "gone"
             free == x.st = "live"
         IN CASE op.o = "clone" /\ here -> Made(s, Put(x.ps, s.free, LAMBDA p : p.o, LAMBDA p : p.o), s.slots)
              [] op.o = "own" /\ free -> Made(s, Put(Copied(x.ps, seen), s.free, LAMBDA p : TRUE, LAMBDA p : ~p.o \/ p.c), With(s, op.a, "gone"))
              [] op.o = "brw" /\ here -> Made(s, Put(x.ps, s.free, LAMBDA p : FALSE, LAMBDA p : FALSE), With(s, op.a, "lent"))
              [] op.o = "same" /\ free -> Made(s, Keep(s, x.ps), With(s, op.a, "gone"))
              [] op.o = "join" /\ free /\ op.a # op.b /\ s.slots[op.b].st = "live" ->
                    Made(s, Keep(s, x.ps \o s.slots[op.b].ps), [With(s, op.a, "gone") EXCEPT ![op.b].st = "gone"])
              [] op.o = "parse" /\ here -> Made(s, Put(x.ps, s.free, LAMBDA p : p.k = "barr", LAMBDA p : TRUE), s.slots)
              [] op.o = "enc" /\ here ->
                    LET r == Put(SelectSeq(x.ps, LAMBDA p : p.k \in {"str", "barr"}), s.free, LAMBDA p : TRUE, LAMBDA p : TRUE)
                    IN [free |-> r.free, slots |-> s.slots, out |-> r.ps]
              [] op.o = "dec" /\ free ->
                    [free |-> s.free, slots |-> With(s, op.a, "gone"), out |-> SelectSeq(x.ps, LAMBDA p : p.k # "id")]
              [] OTHER -> Refused(s)

(***************************************************************************)
(* What is seen of a place: <<0, m>> borrowed, <<1, m>> owned, <<2, 0>>    *)
(* shown for a moment only, <<9, 9>> nothing done.  A decoder hands text   *)
(* and bytes on as they are held; field names that are borrowed may be     *)
(* handed on in any way.                                                   *)
(***************************************************************************)
Sees(p, v, op) ==
    IF p.k = "no" THEN v = <<9, 9>>
    ELSE \/ v = <<IF p.o THEN 1 ELSE 0, p.m>>
         \/ op = "dec" /\ p.k = "name" /\ ~p.o /\ v[1] \in 0..2
Agree(ps, vs, op) == Len(ps) = Len(vs) /\ \A i \in 1..Len(ps) : Sees(ps[i], vs[i], op)
AtEnd(s) == [i \in 1..Len(s.slots) |-> IF s.slots[i].st = "gone" THEN No ELSE s.slots[i].ps]

Follows(in, obs) ==
    LET s0 == Start(in.tree, in.own)
        go(a, i) == LET s == Step(a.s, in.ops[i], obs.steps[i])
                    IN [s |-> s, ok |-> a.ok /\ Agree(s.out, obs.steps[i], in.ops[i].o)]
        r == FoldLeft(go, [s |-> s0, ok |-> Agree(s0.out, obs.init, "")], Idx(Len(in.ops)))
        end == AtEnd(r.s)
    IN /\ Len(obs.steps) = Len(in.ops)
       /\ r.ok
       /\ Len(end) = Len(obs.end)
       /\ \A i \in 1..Len(end) : Agree(end[i], obs.end[i], "")
=============================================================================
