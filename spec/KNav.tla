-------------------------------- MODULE KNav --------------------------------
(***************************************************************************)
(* The navigator over the flattened tree (Nav of KTree).  The crate counts *)
(* nodes from 0.                                                           *)
(***************************************************************************)
EXTENDS KTree

Less(s) == [i \in 1..Len(s) |-> s[i] - 1]
(* the way from the root: entry i as i + 1, key i as -i - 1 *)
RECURSIVE Way(_, _)
Way(N, i) == IF N[i].par = 0 THEN <<>>
             ELSE Append(Way(N, N[i].par), IF N[i].key THEN -N[i].pos - 1 ELSE N[i].pos + 1)
(* an iterator over m things, step by step: what remains, and what comes *)
Steps(m, x(_), n(_)) ==
    [steps |-> [i \in 1..(m + 1) |-> [l |-> m + 1 - i, e |-> i = m + 1,
                                      x |-> IF i > m THEN <<>> ELSE x(i), n |-> IF i > m THEN <<>> ELSE n(i)]],
     over |-> TRUE]
Nodes(s) == Steps(Len(s), LAMBDA i : <<s[i] - 1>>, LAMBDA i : <<>>)
View(N, i) ==
    [i |-> i - 1, par |-> N[i].par - 1, key |-> N[i].key, pos |-> N[i].pos, at |-> Way(N, i), top |-> 0,
     eq |-> <<i - 1>>, alien |-> <<>>,
     k |-> IF IsPrim(N[i].k) THEN "prim" ELSE N[i].k,
     it |-> CASE IsPrim(N[i].k) -> [steps |-> <<>>, over |-> TRUE]
              [] N[i].k \in {"tuple", "seq"} -> Nodes(N[i].vs)
              [] N[i].k = "cntr" -> Steps(Len(N[i].vs), LAMBDA j : <<N[i].vs[j] - 1>>, LAMBDA j : <<N[i].nm[j]>>)
              [] N[i].k = "map" -> Steps(Len(N[i].vs), LAMBDA j : <<N[i].ks[j] - 1, N[i].vs[j] - 1>>, LAMBDA j : <<>>),
     vc |-> Nodes(N[i].vs), kc |-> Nodes(N[i].ks)]
Links(t) ==
    LET N == Nav(t)
    IN [r |-> "ok", len |-> Len(N), empty |-> FALSE, root |-> View(N, 1), same |-> TRUE, beyond |-> TRUE,
        nodes |-> [i \in 1..Len(N) |-> View(N, i)]]

(***************************************************************************)
(* Traversals.  Depth first: the nodes between a node and the end of its   *)
(* subtree.  Breadth first: each level in the order of the level above,    *)
(* for every node all its keys and then all its values.                    *)
(***************************************************************************)
Depth(N, i) == [j \in 1..(N[i].end - i) |-> i + j]
RECURSIVE Levels(_, _)
Levels(N, s) == IF s = <<>> THEN <<>>
                ELSE LET under == FoldLeft(LAMBDA a, i : a \o N[i].ks \o N[i].vs, <<>>, s)
                     IN under \o Levels(N, under)
Breadth(N, i) == Levels(N, <<i>>)
Walks(t) ==
    LET N == Nav(t)
    IN [r |-> "ok", from |-> [i \in 1..Len(N) |-> [depth |-> Less(Depth(N, i)), breadth |-> Less(Breadth(N, i))]]]
=============================================================================
