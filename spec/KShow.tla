-------------------------------- MODULE KShow --------------------------------
(***************************************************************************)
(* The debug form of a value and of a navigator's node, on one line and    *)
(* spread over lines.  X[i] holds the spellings of texts and numbers of    *)
(* node i: X[i].id of its identity, X[i].p of its payload.                 *)
(***************************************************************************)
EXTENDS KTree

Glue(s, sep) == FoldLeft(LAMBDA a, i : IF i = 1 THEN s[1] ELSE a \o sep \o s[i], "", Idx(Len(s)))
All(s) == FoldLeft(LAMBDA a, x : a \o x, "", s)
Id(N, X, i) == IF N[i].id = <<>> THEN "None" ELSE "Some(" \o X[i].id \o ")"
Prim(N, X, i) ==
    CASE N[i].k = "unit" -> "Unit"
      [] N[i].k = "bool" -> "Bool(" \o N[i].p \o ")"
      [] N[i].k = "num" -> "Num(" \o X[i].p \o ")"
      [] N[i].k = "str" -> "Str(" \o X[i].p \o ")"
      [] N[i].k = "barr" -> "Barr(" \o X[i].p \o ")"

(* on one line *)
RECURSIVE Line(_, _, _), LineVal(_, _, _)
Line(N, X, i) == "Kserd { id: " \o Id(N, X, i) \o ", val: " \o LineVal(N, X, i) \o " }"
LineVal(N, X, i) ==
    LET c == [j \in 1..Len(N[i].vs) |-> Line(N, X, N[i].vs[j])]
        k == N[i].k
    IN CASE IsPrim(k) -> Prim(N, X, i)
         [] k = "tuple" -> IF c = <<>> THEN "Tuple" ELSE "Tuple(" \o Glue(c, ", ") \o ")"
         [] k = "cntr" -> IF c = <<>> THEN "Cntr"
                          ELSE "Cntr { " \o Glue([j \in 1..Len(c) |-> N[i].nm[j] \o ": " \o c[j]], ", ") \o " }"
         [] k = "seq" -> "[" \o Glue(c, ", ") \o "]"
         [] k = "map" -> "{" \o Glue([j \in 1..Len(c) |-> Line(N, X, N[i].ks[j]) \o ": " \o c[j]], ", ") \o "}"

(* spread over lines; nl starts a line at the column of the whole *)
Rows(open, rows, close, nl) ==
    open \o All([j \in 1..Len(rows) |-> nl \o "    " \o rows[j] \o ","]) \o (IF rows = <<>> THEN "" ELSE nl) \o close
RECURSIVE Spread(_, _, _, _), SpreadVal(_, _, _, _)
Spread(N, X, i, nl) ==
    Rows("Kserd {", <<"id: " \o Id(N, X, i), "val: " \o SpreadVal(N, X, i, nl \o "    ")>>, "}", nl)
SpreadVal(N, X, i, nl) ==
    LET c == [j \in 1..Len(N[i].vs) |-> Spread(N, X, N[i].vs[j], nl \o "    ")]
        k == N[i].k
    IN CASE IsPrim(k) -> Prim(N, X, i)
         [] k = "tuple" -> IF c = <<>> THEN "Tuple" ELSE Rows("Tuple(", c, ")", nl)
         [] k = "cntr" -> IF c = <<>> THEN "Cntr"
                          ELSE Rows("Cntr {", [j \in 1..Len(c) |-> N[i].nm[j] \o ": " \o c[j]], "}", nl)
         [] k = "seq" -> Rows("[", c, "]", nl)
         [] k = "map" -> Rows("{", [j \in 1..Len(c) |-> Spread(N, X, N[i].ks[j], nl \o "    ") \o ": " \o c[j]], "}", nl)

(* a node: its own content if it is a primitive, and where it is *)
Kind(k) == CASE k = "tuple" -> "Tuple" [] k = "cntr" -> "Cntr" [] k = "seq" -> "Seq" [] k = "map" -> "Map"
Maybe(there, x, nl) == IF ~there THEN "None" ELSE IF nl = "" THEN "Some(" \o x \o ")" ELSE Rows("Some(", <<x>>, ")", nl)
NodeRows(N, X, i, nl) ==
    <<"id: " \o Maybe(N[i].id # <<>>, X[i].id, nl)>>
    \o (IF IsPrim(N[i].k) THEN <<"value-type: \"Primitive\"", "value: " \o Prim(N, X, i)>>
        ELSE <<"value-type: \"" \o Kind(N[i].k) \o "\"">>)
    \o <<"index: " \o ToString(i - 1), "parent: " \o Maybe(N[i].par > 0, ToString(N[i].par - 1), nl),
         "is_key: " \o (IF N[i].key THEN "true" ELSE "false"), "idx_in_parent: " \o ToString(N[i].pos)>>
NodeLine(N, X, i) == "Node { " \o Glue(NodeRows(N, X, i, ""), ", ") \o " }"
NodeSpread(N, X, i) == Rows("Node {", NodeRows(N, X, i, "\n    "), "}", "\n")

Shown(t, X) ==
    LET N == Nav(t)
    IN [r |-> "ok", x |-> X, line |-> Line(N, X, 1), spread |-> Spread(N, X, 1, "\n"),
        val |-> LineVal(N, X, 1), valspread |-> SpreadVal(N, X, 1, "\n"),
        nodes |-> [i \in 1..Len(N) |-> [line |-> NodeLine(N, X, i), spread |-> NodeSpread(N, X, i)]]]
=============================================================================
