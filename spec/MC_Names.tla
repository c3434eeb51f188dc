------------------------------ MODULE MC_Names ------------------------------
(***************************************************************************)
(* Every short text over the characters that matter, every printable       *)
(* character at the start, in the middle and at the end, and every short   *)
(* list of names; the rules are decided character by character.            *)
(***************************************************************************)
EXTENDS KNames, SequencesExt, Json, IOUtils, TLC
CONSTANTS Longest, Lists
Emit == IOEnv.KV_EMIT
Odd == NotInId \union NotInField \union {"0", "9", "a", "Z", "_", "-", ":", "\n", "\r", "#"}
Ascii == "!\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~ \t\n\r\f"
RECURSIVE Texts(_)
Texts(n) == IF n = 0 THEN {""} ELSE LET s == Texts(n - 1) IN s \union {t \o c : t \in s, c \in Odd}
Spots == UNION {{c, c \o "bc", "b" \o c \o "c", "bc" \o c} : c \in {At(Ascii, i) : i \in 1..Len(Ascii)}}
Few == {"a", "b", "Ab", "a1", "", "1a", "a b", "a/", "\"", "b\t", "x.y", "a="}
RECURSIVE NameLists(_)
NameLists(n) == IF n = 0 THEN {<<>>} ELSE LET s == NameLists(n - 1) IN s \union {Append(q, x) : q \in s, x \in Few}

(* texts are tried a dozen at a time *)
Leafs == <<[k |-> "unit", p |-> ""], [k |-> "bool", p |-> "true"], [k |-> "num", p |-> "7"], [k |-> "str", p |-> "a b"],
           [k |-> "barr", p |-> "00ff"], [k |-> "tuple", p |-> ""], [k |-> "cntr", p |-> ""], [k |-> "seq", p |-> ""], [k |-> "map", p |-> ""]>>
Tree(i) == LET x == Leafs[(i % 9) + 1] IN [k |-> x.k, id |-> <<>>, p |-> x.p, nm |-> <<>>, ks |-> <<>>, c |-> <<>>]
Cut(q, n) == [i \in 1..((Len(q) + n - 1) \div n) |-> SubSeq(q, (i - 1) * n + 1, IF i * n > Len(q) THEN Len(q) ELSE i * n)]
In(o, s, i) == [o |-> o, s |-> s, tree |-> Tree(i), probes |-> IF o = "id" THEN <<>> ELSE s \o <<"a", "A", "b", "", "a1">>]
ASSUME TLCSet(2, SetToSeq(Texts(Longest) \union Spots)) /\ TLCSet(3, SetToSeq(NameLists(Lists)))
Every == TLCGet(2)
Some == TLCGet(3)
ASSUME TLCSet(4, Cut(Every, 12))
Ids == TLCGet(4)
Single == [i \in 1..Len(Every) |-> <<Every[i]>>]
ASSUME TLCSet(1, [i \in 1..Len(Ids) |-> In("id", Ids[i], i)] \o [i \in 1..Len(Single) |-> In("cntr", Single[i], i)]
                 \o [i \in 1..Len(Some) |-> In("cntr", Some[i], i)])
P == TLCGet(1)
Walkers == 16
VARIABLE n
Init == n \in 1..Walkers
Next == n + Walkers <= Len(P) /\ n' = n + Walkers
Spec == Init /\ [][Next]_n

(* legal texts are closed under joining and cutting; only a leading digit and emptiness depend on the place *)
Local(s) ==
    /\ IsId(s) <=> \A i \in 1..Len(s) : IsId(At(s, i))
    /\ IsField(s) => \A i \in 1..Len(s) : IsField(SubSeq(s, 1, i)) /\ IsField("a" \o SubSeq(s, i, Len(s)))
    /\ (s # "" /\ IsField("a" \o s)) => (IsField(s) \/ At(s, 1) \in Digits)
Rules == \A i \in 1..Len(P[n].s) : Local(P[n].s[i])
Emitted == Emit = "" \/ PrintT(ToJson([in |-> P[n]]))
=============================================================================
