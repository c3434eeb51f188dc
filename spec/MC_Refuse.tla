------------------------------ MODULE MC_Refuse ------------------------------
(***************************************************************************)
(* Attempts that are mostly refused: every short text as an identity and   *)
(* as a field name, short lists of names, small values decoded as every    *)
(* type, every pair of requests on small values.  Refusals for different   *)
(* reasons say different things.                                           *)
(***************************************************************************)
EXTENDS KRefuse, KGen, Json, IOUtils
CONSTANTS Longest, Lists, Trees, Asked
Emit == IOEnv.KV_EMIT
QTrees == {<<1, 5>>, <<2, 4>>, <<3, 1>>}
TTrees == {<<1, 5>>, <<2, 5>>, <<3, 4>>, <<4, 1>>}
QAsked == {<<1, 1>>, <<2, 1>>, <<3, 1>>, <<4, 1>>}
TAsked == {<<1, 1>>, <<2, 1>>, <<3, 1>>, <<4, 1>>, <<5, 1>>}

Odd == NotInId \union NotInField \union {"0", "9", "a", "Z", "-", ":", "\n"}
RECURSIVE Texts(_)
Texts(n) == IF n = 0 THEN {""} ELSE LET s == Texts(n - 1) IN s \union {t \o c : t \in s, c \in Odd}
Few == {"a", "", "1a", "a b", "a/", "\"", "b\t", "x.y", "''"}
RECURSIVE NameLists(_)
NameLists(n) == IF n = 0 THEN {<<>>} ELSE LET s == NameLists(n - 1) IN s \union {Append(q, x) : q \in s, x \in Few}
Marks == {"1", ".", "-", "e", "_", "x"}
RECURSIVE Numerals(_)
Numerals(n) == IF n = 0 THEN {""} ELSE LET s == Numerals(n - 1) IN s \union {t \o c : t \in s, c \in Marks}

NoCfg == [ip |-> FALSE, it |-> FALSE, ic |-> FALSE, is |-> FALSE, im |-> FALSE, w |-> 0 - 1]
Op(i, r) == [o |-> "repr", i |-> i, r |-> r, b |-> FALSE, cfg |-> NoCfg]
(* after each single request, every request *)
Requests(t) ==
    LET n == Size(t)
        all == [j \in 1..(3 * (n + 1)) |-> Op((j - 1) \div 3, (j - 1) % 3)]
    IN {<<all[j]>> \o all : j \in 1..Len(all)}

Ids == {[o |-> "id", s |-> <<s>>] : s \in Texts(Longest)}
OneName == {[o |-> "field", s |-> <<s>>] : s \in Texts(Longest)}
Fields == {[o |-> "field", s |-> q] : q \in NameLists(Lists)}
Customs == {[o |-> "custom", s |-> <<s>>] : s \in Few}
Numbers == {[o |-> "text", s |-> <<s>>] : s \in Numerals(3)}
NoKeys == {[o |-> "nokey", n |-> n] : n \in 0..3}
Decs == {[o |-> "dec", tree |-> Wire(t)] : t \in UNION {Family(f[1], f[2], 0..1) : f \in Trees}}
Reqs == UNION {{[o |-> "req", tree |-> Wire(t), ops |-> q] : q \in Requests(t)} : t \in UNION {Family(f[1], f[2], {0}) : f \in Asked}}
ASSUME TLCSet(1, SetToSeq(Ids) \o SetToSeq(OneName) \o SetToSeq(Fields) \o SetToSeq(Customs) \o SetToSeq(Numbers)
                 \o SetToSeq(NoKeys) \o SetToSeq(Decs) \o SetToSeq(Reqs))
P == TLCGet(1)
Walkers == 16
VARIABLE n
Init == n \in 1..Walkers
Next == n + Walkers <= Len(P) /\ n' = n + Walkers
Spec == Init /\ [][Next]_n

(* a refusal tells which text was refused, and which names of a list can be meant *)
Outcomes == {"bounds", "pinline", "pconcise", "root"} \union {"high" \o ToString(h[1]) \o ToString(h[2]) : h \in High}
ASSUME Cardinality({RequestSays(r) : r \in Outcomes}) = Cardinality(Outcomes)
ASSUME LET bad == {s \in Texts(Longest) : ~IsId(s)}
       IN Cardinality({IdSays(s) : s \in bad}) = Cardinality(bad) /\ <<>> \notin {IdSays(s) : s \in bad}
ASSUME LET bad == {s \in Texts(Longest) : ~IsField(s) /\ s # "" /\ At(s, 1) \notin Digits}
       IN Cardinality({FieldWhy(s) : s \in bad}) = Cardinality(bad)
Told == /\ P[n].o = "field" => ((\A i \in 1..Len(P[n].s) : IsField(P[n].s[i])) <=> (FieldsSay(P[n].s) = {<<>>}))
        /\ P[n].o = "id" => (IsId(P[n].s[1]) <=> (IdSays(P[n].s[1]) = <<>>))
Emitted == Emit = "" \/ PrintT(ToJson([in |-> P[n]]))
=============================================================================
