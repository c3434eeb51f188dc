------------------------------ MODULE KLayout ------------------------------
(***************************************************************************)
(* The text the formatter writes for a flattened tree N (see KTree!Nav)    *)
(* in formatter state F: F[i] = [id |-> BOOLEAN, line |-> 0..2], where     *)
(* 0 = inline, 1 = concise, 2 = verbose.                                   *)
(***************************************************************************)
EXTENDS KTree

NL == "\n"
Blank == "                                                                                                                                                                                                                                                                                                                "
RECURSIVE Sp(_)
Sp(n) == IF n <= Len(Blank) THEN SubSeq(Blank, 1, n) ELSE Blank \o Sp(n - Len(Blank))

Has(s, ch) == \E i \in 1..Len(s) : SubSeq(s, i, i) = ch
HasId(nd) == nd.id # <<>>
Show(nd, f) == f.id /\ HasId(nd)

(* delimiters in order of preference *)
Delims == <<"\"", "'", "#", "`", "|", "*", "^", "!", "%", "~", "&", "\\", "/", ":", "<", ">", ")">>
StrText(s) ==
    LET ok == SelectSeq(Delims, LAMBDA d : ~Has(s, d))
        d == ok[1]
    IN IF d = "\"" THEN d \o s \o d ELSE "str" \o d \o s \o d
StrHasDelim(s) == \E i \in 1..Len(Delims) : ~Has(s, Delims[i])

PrimText(nd, f) ==
    LET pre == IF Show(nd, f) THEN "<" \o nd.id[1] \o "> " ELSE ""
    IN CASE nd.k = "unit" -> (IF HasId(nd) THEN nd.id[1] ELSE "") \o "()"
         [] nd.k = "bool" -> pre \o nd.p
         [] nd.k = "num"  -> pre \o nd.t
         [] nd.k = "str"  -> pre \o StrText(nd.p)
         [] nd.k = "barr" -> pre \o "b91'" \o nd.t \o "'"

JoinStr(q, sep) ==
    IF q = <<>> THEN "" ELSE FoldLeft(LAMBDA a, x : a \o sep \o x, q[1], Tail(q))
Cat(q) == FoldLeft(LAMBDA a, x : a \o x, "", q)

IdSp(nd, f) == IF Show(nd, f) THEN nd.id[1] \o " " ELSE ""

RECURSIVE W(_, _, _, _), CntrW(_, _, _, _, _), SeqW(_, _, _, _, _), MapW(_, _, _, _, _)

(* node i written with its first character in column col *)
W(N, F, i, col) ==
    LET nd == N[i] IN
    CASE IsPrim(nd.k) -> PrimText(nd, F[i])
      [] nd.k = "tuple" ->
           LET open == (IF Show(nd, F[i]) THEN nd.id[1] ELSE "") \o "(" IN
           IF F[i].line = 0
           THEN open \o JoinStr([j \in 1..Len(nd.vs) |-> W(N, F, nd.vs[j], col)], ", ") \o ")"
           ELSE open \o NL
                \o Cat([j \in 1..Len(nd.vs) |-> Sp(col + 4) \o W(N, F, nd.vs[j], col + 4) \o NL])
                \o Sp(col) \o ")"
      [] nd.k = "cntr" -> CntrW(N, F, i, col, TRUE)
      [] nd.k = "seq"  -> SeqW(N, F, i, col, <<>>)
      [] nd.k = "map"  -> MapW(N, F, i, col, <<>>)

FieldLine(N, F, name, v, col) ==
    name \o " = " \o W(N, F, v, col + Len(name) + 3) \o NL

HeadId(N, F, v) == IF Show(N[v], F[v]) THEN ":" \o N[v].id[1] ELSE ""

CntrW(N, F, i, col, idrow) ==
    LET nd == N[i] IN
    IF F[i].line = 0 THEN
        IdSp(nd, F[i]) \o "("
        \o JoinStr([j \in 1..Len(nd.vs) |-> nd.nm[j] \o " = " \o W(N, F, nd.vs[j], col)], ", ") \o ")"
    ELSE IF F[i].line = 1 THEN
        IdSp(nd, F[i]) \o "(" \o NL
        \o Cat([j \in 1..Len(nd.vs) |-> Sp(col + 4) \o FieldLine(N, F, nd.nm[j], nd.vs[j], col + 4)])
        \o Sp(col) \o ")"
    ELSE
        (IF idrow /\ Show(nd, F[i]) THEN Sp(col) \o ":" \o nd.id[1] \o NL ELSE "")
        \o Cat([j \in 1..Len(nd.vs) |->
             LET v == nd.vs[j]
                 name == nd.nm[j]
             IN IF F[v].line = 2 /\ N[v].k = "cntr"
                THEN NL \o Sp(col) \o "[" \o name \o HeadId(N, F, v) \o "]" \o NL
                     \o CntrW(N, F, v, col + 4, FALSE)
                ELSE IF F[v].line = 2 /\ N[v].k = "seq"
                THEN LET x == SeqW(N, F, v, col, <<name>>) IN NL \o SubSeq(x, 1, Len(x) - 1)
                ELSE IF F[v].line = 2 /\ N[v].k = "map"
                THEN NL \o MapW(N, F, v, col, <<name>>)
                ELSE Sp(col) \o FieldLine(N, F, name, v, col)])

SeqW(N, F, i, col, fname) ==
    LET nd == N[i] IN
    IF F[i].line = 0 THEN
        IdSp(nd, F[i]) \o "[" \o JoinStr([j \in 1..Len(nd.vs) |-> W(N, F, nd.vs[j], col)], ", ") \o "]"
    ELSE IF F[i].line = 1 \/ fname = <<>> THEN
        IdSp(nd, F[i]) \o "[" \o NL
        \o Cat([j \in 1..Len(nd.vs) |-> Sp(col + 4) \o W(N, F, nd.vs[j], col + 4) \o NL])
        \o Sp(col) \o "]"
    ELSE
        Cat([j \in 1..Len(nd.vs) |->
             Sp(col) \o "[[" \o fname[1] \o HeadId(N, F, i) \o "]]" \o NL
             \o (IF F[nd.vs[j]].line = 2
                 THEN W(N, F, nd.vs[j], col + 4)
                 ELSE Sp(col) \o W(N, F, nd.vs[j], col) \o NL)
             \o NL])

Entry(N, F, kk, v, col) ==
    LET kt == W(N, F, kk, col)
        off == IF F[kk].line = 0 THEN Len(kt) + 2 ELSE 3
    IN kt \o ": " \o W(N, F, v, col + off) \o NL

MapW(N, F, i, col, fname) ==
    LET nd == N[i] IN
    IF F[i].line = 0 THEN
        IdSp(nd, F[i]) \o "{"
        \o (IF nd.vs = <<>> THEN ""
            ELSE " " \o JoinStr([j \in 1..Len(nd.vs) |->
                                   W(N, F, nd.ks[j], col) \o ": " \o W(N, F, nd.vs[j], col)], ", ") \o " ")
        \o "}"
    ELSE IF F[i].line = 1 \/ fname = <<>> THEN
        IdSp(nd, F[i]) \o "{" \o NL
        \o Cat([j \in 1..Len(nd.vs) |-> Sp(col + 4) \o Entry(N, F, nd.ks[j], nd.vs[j], col + 4)])
        \o Sp(col) \o "}"
    ELSE
        Cat([j \in 1..Len(nd.vs) |->
             Sp(col) \o "[[" \o fname[1] \o HeadId(N, F, i) \o "]]" \o NL \o Sp(col)
             \o (IF F[nd.vs[j]].line = 2
                 THEN W(N, F, nd.ks[j], col) \o ":" \o NL \o W(N, F, nd.vs[j], col + 4) \o NL
                 ELSE Entry(N, F, nd.ks[j], nd.vs[j], col))])

Text(N, F) == W(N, F, 1, 0)

(***************************************************************************)
(* The value, with identities, that the written text stands for: identities *)
(* that are displayed, and `()` for the unit-like values.                  *)
(***************************************************************************)
RECURSIVE Shown(_, _, _)
Shown(N, F, i) ==
    LET nd == N[i]
        id == IF Show(nd, F[i]) \/ nd.k = "unit" THEN nd.id ELSE <<>>
        kids == [j \in 1..Len(nd.vs) |-> Shown(N, F, nd.vs[j])]
        keys == [j \in 1..Len(nd.ks) |-> Shown(N, F, nd.ks[j])]
    IN IF nd.k \in {"unit", "tuple", "cntr"} /\ nd.vs = <<>> THEN [k |-> "unit", id |-> id]
       ELSE IF IsPrim(nd.k) THEN [k |-> nd.k, id |-> id, p |-> nd.p]
       ELSE IF nd.k = "cntr" THEN [k |-> "cntr", id |-> id, f |-> {<<nd.nm[j], kids[j]>> : j \in 1..Len(kids)}]
       ELSE IF nd.k = "map" THEN [k |-> "map", id |-> id, e |-> {<<keys[j], kids[j]>> : j \in 1..Len(kids)}]
       ELSE [k |-> nd.k, id |-> id, c |-> kids]

(* the same form for a parsed tree *)
RECURSIVE FullN(_)
FullN(t) ==
    IF t.k \in {"unit", "tuple", "cntr"} /\ Len(t.c) = 0 THEN [k |-> "unit", id |-> t.id]
    ELSE IF IsPrim(t.k) THEN [k |-> t.k, id |-> t.id, p |-> t.p]
    ELSE IF t.k = "cntr" THEN [k |-> "cntr", id |-> t.id, f |-> {<<t.nm[i], FullN(t.c[i])>> : i \in 1..Len(t.c)}]
    ELSE IF t.k = "map"  THEN [k |-> "map", id |-> t.id, e |-> {<<FullN(t.ks[i]), FullN(t.c[i])>> : i \in 1..Len(t.c)}]
    ELSE [k |-> t.k, id |-> t.id, c |-> [i \in 1..Len(t.c) |-> FullN(t.c[i])]]
=============================================================================
