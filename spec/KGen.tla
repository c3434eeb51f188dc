------------------------------- MODULE KGen -------------------------------
(***************************************************************************)
(* Exhaustive families of small values.                                    *)
(***************************************************************************)
EXTENDS KOrder

Zero == [c |-> "fin", s |-> 0, e |-> 0, m |-> <<0, 0, 0, 0, 0, 0, 0, 0>>]
Pos(e, top) == [c |-> "fin", s |-> 1, e |-> e, m |-> <<top, 0, 0, 0, 0, 0, 0, 0>>]

QLeaf(k, p, t, w, o, q) ==
    [k |-> k, id |-> <<>>, p |-> p, t |-> t, w |-> w, nm |-> <<>>, ks |-> <<>>, c |-> <<>>, o |-> o, q |-> q, no |-> <<>>]
OLeaf(k, p, t, w, o) == QLeaf(k, p, t, w, o, Zero)
OComp(k, nm, no, ks, c) ==
    [k |-> k, id |-> <<>>, p |-> "", t |-> "", w |-> 0, nm |-> nm, ks |-> ks, c |-> c, o |-> <<>>, q |-> Zero, no |-> no]

LUnit == OLeaf("unit", "", "", 0, <<>>)
LTrue == OLeaf("bool", "true", "", 0, <<>>)
LOne == QLeaf("num", "1", "1", 1, <<>>, Pos(1, 32768))
LHalf == QLeaf("num", "1.5", "1.5", 3, <<>>, Pos(1, 49152))
LPlain == OLeaf("str", "x", "", 1, <<120>>)
LAssign == OLeaf("str", "a = [1", "", 6, <<97, 32, 61, 32, 91, 49>>)
LQuote == OLeaf("str", "\"'", "", 4, <<34, 39>>)
LBytes == OLeaf("barr", "00ff", "T|H", 2, <<0, 255>>)
LEmptyStr == OLeaf("str", "", "", 0, <<>>)
LLines == OLeaf("str", "a\nb: c", "", 7, <<97, 10, 98, 58, 32, 99>>)

Pool(n) ==
    CASE n = 1 -> {LOne}
      [] n = 2 -> {LOne, LAssign}
      [] n = 3 -> {LUnit, LTrue, LQuote}
      [] n = 4 -> {LUnit, LTrue, LOne, LAssign, LBytes}
      [] n = 5 -> {LUnit, LTrue, LOne, LHalf, LPlain, LAssign, LQuote, LBytes, LEmptyStr, LLines}

Names == <<"a", "b1", "c-c", "d", "e", "f">>
NameBytes == <<<<97>>, <<98, 49>>, <<99, 45, 99>>, <<100>>, <<101>>, <<102>>>>

(* lists of trees with n nodes in total *)
RECURSIVE TreesOf(_, _), ListsOf(_, _), EntriesOf(_, _)
ListsOf(n, pl) ==
    IF n = 0 THEN {<<>>}
    ELSE UNION {{<<h>> \o tl : h \in TreesOf(k, pl), tl \in ListsOf(n - k, pl)} : k \in 1..n}
(* lists of <<key, value>> pairs with n nodes in total, keys ascending, no   *)
(* empty tuple or container as a key (it would share the spelling of unit)   *)
RECURSIVE SpellableKey(_)
SpellableKey(t) ==
    /\ ~(t.k \in {"tuple", "cntr"} /\ t.c = <<>>)
    /\ \A i \in 1..Len(t.c) : SpellableKey(t.c[i])
    /\ \A i \in 1..Len(t.ks) : SpellableKey(t.ks[i])
EntriesOf(n, pl) ==
    IF n = 0 THEN {<<>>}
    ELSE IF n = 1 THEN {}
    ELSE UNION {UNION {
           {e \in {<<<<kk, v>>>> \o tl : kk \in {x \in TreesOf(a, pl) : SpellableKey(x)},
                                         v \in TreesOf(b, pl), tl \in EntriesOf(n - a - b, pl)} :
              Len(e) < 2 \/ Cmp(e[1][1], e[2][1]) < 0}
           : b \in 1..(n - a)} : a \in 1..(n - 1)}

TreesOf(n, pl) ==
    (IF n = 1 THEN Pool(pl) ELSE {})
    \union {OComp("tuple", <<>>, <<>>, <<>>, q) : q \in ListsOf(n - 1, pl)}
    \union {OComp("seq", <<>>, <<>>, <<>>, q) : q \in ListsOf(n - 1, pl)}
    \union {OComp("cntr", SubSeq(Names, 1, Len(q)), SubSeq(NameBytes, 1, Len(q)), <<>>, q) : q \in ListsOf(n - 1, pl)}
    \union {OComp("map", <<>>, <<>>, [i \in 1..Len(q) |-> q[i][1]], [i \in 1..Len(q) |-> q[i][2]]) : q \in EntriesOf(n - 1, pl)}

(* identities: 0 none, 1 on every node, 2 on every other node, 3 on the rest; *)
(* each node gets its own so that a misplaced identity is visible             *)
RECURSIVE Dress(_, _, _)
Dress(t, base, mode) ==
    LET on == mode = 1 \/ (mode = 2 /\ base % 2 = 1) \/ (mode = 3 /\ base % 2 = 0)
        step(a, i) ==
          LET isMap == t.k = "map"
              kk == IF isMap THEN Dress(t.ks[i], a.nx, mode) ELSE t
              vb == IF isMap THEN a.nx + Size(t.ks[i]) ELSE a.nx
          IN [nx |-> vb + Size(t.c[i]),
              ks |-> IF isMap THEN Append(a.ks, kk) ELSE a.ks,
              c |-> Append(a.c, Dress(t.c[i], vb, mode))]
        r == FoldLeft(step, [nx |-> base + 1, ks |-> <<>>, c |-> <<>>], Idx(Len(t.c)))
    IN [t EXCEPT !.id = IF on THEN <<"N" \o ToString(base)>> ELSE <<>>, !.ks = r.ks, !.c = r.c]

Family(n, pl, modes) == {Dress(t, 1, m) : t \in TreesOf(n, pl), m \in modes}

(* the tree as sent to the implementation *)
RECURSIVE Wire(_)
Wire(t) == [k |-> t.k, id |-> t.id, p |-> t.p, t |-> t.t, w |-> t.w, nm |-> t.nm,
            ks |-> [i \in 1..Len(t.ks) |-> Wire(t.ks[i])], c |-> [i \in 1..Len(t.c) |-> Wire(t.c[i])]]
=============================================================================
