------------------------------- MODULE KStore -------------------------------
(***************************************************************************)
(* A store of values: sessions of copies, edits at a place and reads.      *)
(* Trees are [k, id, p, n, q, u, nm, ks, c]: n and q tell how and which    *)
(* number is held, u is the length of a text; entries in any order.        *)
(* A path is a sequence of steps [w, i, n, k]: w = "i" element i, "n"      *)
(* field n, "k" the value under the key k[1].                              *)
(***************************************************************************)
EXTENDS KTree, KNumConv

(* everything that can be told about a value *)
RECURSIVE All(_)
All(t) ==
    IF t.k = "num" THEN [k |-> "num", id |-> t.id, n |-> t.n, q |-> t.q]
    ELSE IF IsPrim(t.k) THEN [k |-> t.k, id |-> t.id, p |-> t.p]
    ELSE IF t.k = "cntr" THEN [k |-> "cntr", id |-> t.id, l |-> Len(t.c), f |-> {<<t.nm[i], All(t.c[i])>> : i \in 1..Len(t.c)}]
    ELSE IF t.k = "map" THEN [k |-> "map", id |-> t.id, l |-> Len(t.c), e |-> {<<All(t.ks[i]), All(t.c[i])>> : i \in 1..Len(t.c)}]
    ELSE [k |-> t.k, id |-> t.id, c |-> [i \in 1..Len(t.c) |-> All(t.c[i])]]
AllOf(s) == [i \in 1..Len(s) |-> All(s[i])]
(* equality of values, as decided for keys *)
RECURSIVE Alike(_)
Alike(t) ==
    IF t.k \in {"tuple", "cntr"} /\ t.c = <<>> THEN [k |-> "tuple", c |-> <<>>]
    ELSE IF t.k = "num" THEN [k |-> "num", q |-> t.q]
    ELSE IF IsPrim(t.k) THEN [k |-> t.k, p |-> t.p]
    ELSE IF t.k = "cntr" THEN [k |-> "cntr", f |-> {<<t.nm[i], Alike(t.c[i])>> : i \in 1..Len(t.c)}]
    ELSE IF t.k = "map" THEN [k |-> "map", e |-> {<<Alike(t.ks[i]), Alike(t.c[i])>> : i \in 1..Len(t.c)}]
    ELSE [k |-> t.k, c |-> [i \in 1..Len(t.c) |-> Alike(t.c[i])]]

(***************************************************************************)
(* Places                                                                  *)
(***************************************************************************)
(* the positions of a name or key: at most one *)
NameAt(t, n) == {i \in 1..Len(t.nm) : t.nm[i] = n}
KeyAt(t, x) == {i \in 1..Len(t.ks) : Alike(t.ks[i]) = Alike(x)}
Child(t, s) ==
    CASE s.w = "i" -> IF t.k \in {"tuple", "seq"} THEN {s.i} \intersect 1..Len(t.c) ELSE {}
      [] s.w = "n" -> IF t.k = "cntr" THEN NameAt(t, s.n) ELSE {}
      [] s.w = "k" -> IF t.k = "map" THEN KeyAt(t, s.k[1]) ELSE {}
Only(S) == CHOOSE x \in S : TRUE
RECURSIVE Get(_, _)
(* a sequence of at most one value *)
Get(t, path) ==
    IF path = <<>> THEN <<t>>
    ELSE LET c == Child(t, path[1]) IN IF c = {} THEN <<>> ELSE Get(t.c[Only(c)], Tail(path))
RECURSIVE Put(_, _, _)
Put(t, path, x) ==
    IF path = <<>> THEN x
    ELSE LET i == Only(Child(t, path[1])) IN [t EXCEPT !.c[i] = Put(t.c[i], Tail(path), x)]

(***************************************************************************)
(* Edits: what becomes of a value, or nothing if it is not of that kind    *)
(***************************************************************************)
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
EditList(t, how, x) ==
    CASE how = "push" -> [t EXCEPT !.c = Append(t.c, x)]
      [] how = "pop" -> [t EXCEPT !.c = IF t.c = <<>> THEN <<>> ELSE SubSeq(t.c, 1, Len(t.c) - 1)]
      [] how = "clear" -> [t EXCEPT !.c = <<>>]
      [] how = "front" -> [t EXCEPT !.c = <<x>> \o t.c]
      [] how = "reverse" -> [t EXCEPT !.c = [i \in 1..Len(t.c) |-> t.c[Len(t.c) + 1 - i]]]
EditEntries(t, how, at, heads, x) ==         \* heads: the names or keys with the new one at the end
    CASE how = "insert" -> IF at # {} THEN [t EXCEPT !.c[Only(at)] = x]
                           ELSE [t EXCEPT !.nm = heads.nm, !.ks = heads.ks, !.c = Append(t.c, x)]
      [] how = "remove" -> IF at = {} THEN t
                           ELSE LET i == Only(at)
                                IN [t EXCEPT !.c = Without(t.c, i),
                                             !.nm = IF t.k = "cntr" THEN Without(t.nm, i) ELSE <<>>,
                                             !.ks = IF t.k = "map" THEN Without(t.ks, i) ELSE <<>>]
      [] how = "clear" -> [t EXCEPT !.c = <<>>, !.nm = <<>>, !.ks = <<>>]
EditCntr(t, how, n, x) == EditEntries(t, how, NameAt(t, n), [nm |-> Append(t.nm, n), ks |-> <<>>], x)
EditMap(t, how, y, x) == EditEntries(t, how, KeyAt(t, y), [nm |-> <<>>, ks |-> Append(t.ks, y)], x)
KindOf(acc, t) == IF acc = "list" THEN t.k \in {"tuple", "seq"} ELSE t.k = acc
Lookups == {"get_bool", "get_num", "get_str", "get_barr", "get_tuple", "get_seq", "get_list", "get_cntr", "get_map"}
Looked(acc) == SubSeq(acc, 5, Len(acc))
RECURSIVE Edited(_, _)
(* a sequence of at most one value *)
Edited(t, op) ==
    IF op.acc = "id" THEN <<[t EXCEPT !.id = op.v[1].id]>>
    ELSE IF op.acc = "val" THEN <<[op.v[1] EXCEPT !.id = t.id]>>
    ELSE IF op.acc = "set" THEN <<op.v[1]>>
    ELSE IF op.acc \in Lookups
    THEN LET at == IF t.k = "cntr" THEN NameAt(t, op.name) ELSE {}
             r == IF at = {} THEN <<>>
                  ELSE Edited(t.c[Only(at)], [op EXCEPT !.acc = Looked(op.acc), !.name = op.key[1].p])
         IN IF r = <<>> THEN <<>> ELSE <<[t EXCEPT !.c[Only(at)] = r[1]]>>
    ELSE IF ~KindOf(op.acc, t) THEN <<>>
    ELSE LET x == op.v[1]
             more == op.how = "append"
         IN CASE op.acc = "bool" -> <<[t EXCEPT !.p = x.p]>>
              [] op.acc = "num" -> <<[t EXCEPT !.p = x.p, !.n = x.n, !.q = x.q]>>
              [] op.acc \in {"str", "barr"} -> <<[t EXCEPT !.p = IF more THEN t.p \o x.p ELSE x.p, !.u = IF more THEN t.u + x.u ELSE x.u]>>
              [] op.acc \in {"tuple", "seq", "list"} -> <<EditList(t, op.how, x)>>
              [] op.acc = "cntr" -> <<EditCntr(t, op.how, op.name, x)>>
              [] op.acc = "map" -> <<EditMap(t, op.how, op.key[1], x)>>

(***************************************************************************)
(* One operation on the store: [hit, all]                                  *)
(***************************************************************************)
Bare(how) == how \in {"vclone", "vview"}     \* copies of the value without its identity
Step(S, op) ==
    LET t == Get(S[op.a], op.at)
        e == IF t = <<>> THEN <<>> ELSE Edited(t[1], op)
        after == IF e = <<>> THEN S[op.a] ELSE Put(S[op.a], op.at, e[1])
    IN CASE op.o = "copy" -> [hit |-> t # <<>>, all |-> IF t = <<>> THEN S ELSE
                                Append(S, IF Bare(op.how) THEN [t[1] EXCEPT !.id = <<>>] ELSE t[1])]
         [] op.o \in {"own", "look", "read"} -> [hit |-> t # <<>>, all |-> S]
         [] op.o = "edit" -> [hit |-> e # <<>>, all |-> [S EXCEPT ![op.a] = after]]
         [] op.o = "vedit" -> [hit |-> e # <<>>, all |-> Append(S, after)]

(***************************************************************************)
(* Reads: what each accessor gives                                         *)
(***************************************************************************)
If(c, x) == IF c THEN <<x>> ELSE <<>>
Set(s) == {s[i] : i \in 1..Len(s)}
Num(t) == [h |-> t.n, v |-> t.q]
IsList(o, c, t) == Len(o) = (IF c THEN 1 ELSE 0) /\ (c => AllOf(o[1]) = AllOf(t.c))
IsCntr(o, t) ==
    /\ Len(o) = (IF t.k = "cntr" THEN 1 ELSE 0)
    /\ t.k = "cntr" => /\ Len(o[1].nm) = Len(t.c) /\ Len(o[1].c) = Len(t.c)
                       /\ {<<o[1].nm[i], All(o[1].c[i])>> : i \in 1..Len(t.c)} = {<<t.nm[i], All(t.c[i])>> : i \in 1..Len(t.c)}
IsMap(o, t) ==
    /\ Len(o) = (IF t.k = "map" THEN 1 ELSE 0)
    /\ t.k = "map" => /\ Len(o[1].ks) = Len(t.c) /\ Len(o[1].c) = Len(t.c)
                      /\ {<<All(o[1].ks[i]), All(o[1].c[i])>> : i \in 1..Len(t.c)} = {<<All(t.ks[i]), All(t.c[i])>> : i \in 1..Len(t.c)}
(* the part that shared and mutable access have in common *)
Common(o, t) ==
    /\ o.bool = If(t.k = "bool", t.p) /\ o.str = If(t.k = "str", t.p) /\ o.barr = If(t.k = "barr", t.p)
    /\ IsList(o.tuple, t.k = "tuple", t) /\ IsList(o.seq, t.k = "seq", t) /\ IsList(o.list, t.k \in {"tuple", "seq"}, t)
    /\ IsCntr(o.cntr, t) /\ IsMap(o.map, t)
Held(o, t) == o.num = If(t.k = "num", [n |-> t.n, q |-> t.q])
Seen(o, t) ==
    /\ Common(o, t) /\ o.unit = (t.k = "unit") /\ o.id = t.id
    /\ o.ch = If(t.k = "str" /\ t.u = 1, t.p)
    /\ Len(o.uint) <= 1 /\ Set(o.uint) = (IF t.k = "num" THEN AsU(Num(t)) ELSE {})
    /\ Len(o.int) <= 1 /\ Set(o.int) = (IF t.k = "num" THEN AsI(Num(t)) ELSE {})
    /\ o.float = If(t.k = "num", AsF(Num(t)))
None == [k |-> "none", id |-> <<>>, p |-> "", n |-> "", u |-> 0, nm |-> <<>>, ks |-> <<>>, c |-> <<>>]
Field(t, n) == IF NameAt(t, n) = {} THEN None ELSE t.c[Only(NameAt(t, n))]
Named(o, x) ==
    /\ Common(o, x) /\ Held(o, x) /\ o.unit = (x.k = "unit")
    /\ AllOf(o.get) = IF x.k = "none" THEN <<>> ELSE <<All(x)>>
Reads(o, t, names) ==
    /\ Seen(o.at, t) /\ Common(o.mut, t) /\ Held(o.mut, t)
    /\ IF t.k = "cntr"
       THEN /\ Len(o.by) = Len(names) /\ \A i \in 1..Len(names) : Named(o.by[i], Field(t, names[i]))
            /\ Len(o.bym) = Len(names)
            /\ \A i \in 1..Len(names) : LET x == Field(t, names[i]) IN Common(o.bym[i], x) /\ Held(o.bym[i], x)
       ELSE o.by = <<>> /\ o.bym = <<>>

(* a whole session *)
RECURSIVE Follows(_, _, _, _)
Follows(S, ops, steps, i) ==
    IF i > Len(ops) THEN TRUE
    ELSE LET q == Step(S, ops[i])
             o == steps[i]
         IN /\ o.hit = q.hit
            /\ AllOf(o.all) = AllOf(q.all)
            /\ CASE ops[i].o = "look" /\ q.hit -> LET x == All(Get(S[ops[i].a], ops[i].at)[1]) IN AllOf(o.out) = <<x, x>>
                 [] ops[i].o = "read" /\ q.hit -> Len(o.out) = 1 /\ Reads(o.out[1], Get(S[ops[i].a], ops[i].at)[1], ops[i].names)
                 [] OTHER -> o.out = <<>>
            /\ Follows(q.all, ops, steps, i + 1)
Session(in, obs) ==
    /\ obs.r = "ok" /\ Len(obs.steps) = Len(in.ops)
    /\ Follows(<<in.tree>>, in.ops, obs.steps, 1)
    /\ All(obs.base) = All(in.tree)
=============================================================================
