------------------------------- MODULE KTree -------------------------------
(***************************************************************************)
(* The data model: a kserd value is a tree of records                      *)
(*   [k, id, p, t, w, nm, ks, c]                                           *)
(* k  kind: "unit" "bool" "num" "str" "barr" "tuple" "cntr" "seq" "map"    *)
(* id identity, a sequence of zero or one strings                          *)
(* p  payload of a primitive, in a canonical exact spelling                *)
(* t  printed spelling of a number / base-91 text of a byte array          *)
(* w  width of the payload used for layout                                 *)
(* nm field names of a container (sorted), ks keys of a map, c children    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Prims == {"unit", "bool", "num", "str", "barr"}
IsPrim(k) == k \in Prims

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Sub0(a, b) == IF a > b THEN a - b ELSE 0            \* saturating subtraction

Idx(n) == [i \in 1..n |-> i]                          \* <<1, 2, .. n>>

Leaf(k, id, p, t, w) ==
    [k |-> k, id |-> id, p |-> p, t |-> t, w |-> w, nm |-> <<>>, ks |-> <<>>, c |-> <<>>]
Comp(k, id, nm, ks, c) ==
    [k |-> k, id |-> id, p |-> "", t |-> "", w |-> 0, nm |-> nm, ks |-> ks, c |-> c]

(***************************************************************************)
(* Content of a value with identities erased.  Unit, the empty tuple and   *)
(* the empty container share the notation `()`; Norm identifies them,      *)
(* EqNorm (the crate's equality) identifies only empty tuple/container.    *)
(* Maps are compared as sets of entries.                                   *)
(***************************************************************************)
RECURSIVE Norm(_)
Norm(t) ==
    IF t.k \in {"unit", "tuple", "cntr"} /\ Len(t.c) = 0 THEN [k |-> "unit"]
    ELSE IF IsPrim(t.k) THEN [k |-> t.k, p |-> t.p]
    ELSE IF t.k = "cntr" THEN [k |-> "cntr", f |-> {<<t.nm[i], Norm(t.c[i])>> : i \in 1..Len(t.c)}]
    ELSE IF t.k = "map"  THEN [k |-> "map", e |-> {<<Norm(t.ks[i]), Norm(t.c[i])>> : i \in 1..Len(t.c)}]
    ELSE [k |-> t.k, c |-> [i \in 1..Len(t.c) |-> Norm(t.c[i])]]

RECURSIVE EqNorm(_)
EqNorm(t) ==
    IF t.k \in {"tuple", "cntr"} /\ Len(t.c) = 0 THEN [k |-> "tuple", c |-> <<>>]
    ELSE IF IsPrim(t.k) THEN [k |-> t.k, p |-> t.p]
    ELSE IF t.k = "cntr" THEN [k |-> "cntr", f |-> {<<t.nm[i], EqNorm(t.c[i])>> : i \in 1..Len(t.c)}]
    ELSE IF t.k = "map"  THEN [k |-> "map", e |-> {<<EqNorm(t.ks[i]), EqNorm(t.c[i])>> : i \in 1..Len(t.c)}]
    ELSE [k |-> t.k, c |-> [i \in 1..Len(t.c) |-> EqNorm(t.c[i])]]

(* full content: kinds, identities, payloads *)
RECURSIVE Full(_)
Full(t) ==
    IF IsPrim(t.k) THEN [k |-> t.k, id |-> t.id, p |-> t.p]
    ELSE IF t.k = "cntr" THEN [k |-> "cntr", id |-> t.id, f |-> {<<t.nm[i], Full(t.c[i])>> : i \in 1..Len(t.c)}]
    ELSE IF t.k = "map"  THEN [k |-> "map", id |-> t.id, e |-> {<<Full(t.ks[i]), Full(t.c[i])>> : i \in 1..Len(t.c)}]
    ELSE [k |-> t.k, id |-> t.id, c |-> [i \in 1..Len(t.c) |-> Full(t.c[i])]]

(***************************************************************************)
(* Depth-first flattening, each map key just before its value.  Node n:    *)
(* [k,id,p,t,w,nm, par, key, pos, vs, ks, end]; indices start at 1, the    *)
(* root's parent is 0, pos counts from 0, end is the last index of the     *)
(* subtree.                                                                *)
(***************************************************************************)
RECURSIVE Flat(_, _, _, _, _)
Flat(t, base, par, key, pos) ==
    LET step(a, i) ==
          LET kout == IF t.k = "map" THEN Flat(t.ks[i], a.nx, base, TRUE, i - 1) ELSE <<>>
              vbase == a.nx + Len(kout)
              vout == Flat(t.c[i], vbase, base, FALSE, i - 1)
          IN [nx |-> vbase + Len(vout), out |-> a.out \o kout \o vout,
              vs |-> Append(a.vs, vbase),
              ks |-> IF t.k = "map" THEN Append(a.ks, a.nx) ELSE a.ks]
        r == FoldLeft(step, [nx |-> base + 1, out |-> <<>>, vs |-> <<>>, ks |-> <<>>], Idx(Len(t.c)))
    IN <<[k |-> t.k, id |-> t.id, p |-> t.p, t |-> t.t, w |-> t.w, nm |-> t.nm,
          par |-> par, key |-> key, pos |-> pos, vs |-> r.vs, ks |-> r.ks, end |-> r.nx - 1]>> \o r.out

Nav(t) == Flat(t, 1, 0, FALSE, 0)

RECURSIVE Size(_)
Size(t) == FoldLeft(LAMBDA a, x : a + Size(x), 1, t.ks \o t.c)
=============================================================================
