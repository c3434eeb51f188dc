------------------------------- MODULE MC_Nav -------------------------------
(***************************************************************************)
(* Every small value: the links and walks the navigator has to show, and   *)
(* that they are those the properties describe.                            *)
(***************************************************************************)
EXTENDS KGen, KNav, Json, IOUtils
CONSTANT Families
Emit == IOEnv.KV_EMIT
QFamilies == {<<1, 5>>, <<2, 4>>, <<3, 4>>, <<4, 2>>, <<5, 1>>}
TFamilies == {<<1, 5>>, <<2, 5>>, <<3, 5>>, <<4, 4>>, <<5, 2>>, <<6, 1>>}

(* the values are computed once; n walks over them *)
Walkers == 16
ASSUME TLCSet(1, SetToSeq(UNION {TreesOf(f[1], f[2]) : f \in Families}))
P == TLCGet(1)
VARIABLE n
Init == n \in 1..Walkers
Next == n + Walkers <= Len(P) /\ n' = n + Walkers
Spec == Init /\ [][Next]_n

t == P[n]
Kids(N, i) == {N[i].vs[j] : j \in 1..Len(N[i].vs)} \union {N[i].ks[j] : j \in 1..Len(N[i].ks)}
RECURSIVE Below(_, _)
Below(N, i) == UNION {{j} \union Below(N, j) : j \in Kids(N, i)}
RECURSIVE Level(_, _)
Level(N, i) == IF N[i].par = 0 THEN 0 ELSE 1 + Level(N, N[i].par)

(* one node per subvalue; parents and children agree; a key sits just before its value *)
Linked == LET N == Nav(t) IN 
    /\ Len(N) = Size(t)
    /\ \A i \in 2..Len(N) : \A j \in 1..Len(N) : i \in Kids(N, j) <=> j = N[i].par
    /\ \A i \in 1..Len(N) : Kids(N, i) \subseteq (i + 1)..Len(N)
    /\ \A i \in 1..Len(N) : \A j \in 1..Len(N[i].ks) :
         /\ N[i].vs[j] = N[N[i].ks[j]].end + 1
         /\ N[N[i].ks[j]].key /\ ~N[N[i].vs[j]].key /\ N[N[i].ks[j]].pos = N[N[i].vs[j]].pos
(* walks visit every proper descendant once, in their order *)
Visits(N, s, i) == LET b == Below(N, i) IN Len(s) = Cardinality(b) /\ {s[j] : j \in 1..Len(s)} = b
Walked == LET N == Nav(t) IN \A i \in 1..Len(N) :
    LET d == Depth(N, i)
        b == Breadth(N, i)
    IN /\ Visits(N, d, i) /\ Visits(N, b, i)
       /\ \A x, y \in 1..Len(d) : d[y] \in Below(N, d[x]) => x < y
       /\ \A x \in 1..(Len(b) - 1) : Level(N, b[x]) <= Level(N, b[x + 1])
Emitted == Emit = ""
    \/ PrintT(ToJson([in |-> [tree |-> Wire(t)], exp |-> IF Emit = "K18" THEN Links(t) ELSE Walks(t)]))
=============================================================================
