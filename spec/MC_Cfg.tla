------------------------------- MODULE MC_Cfg -------------------------------
(***************************************************************************)
(* Configurations applied to every small value: from the initial state and *)
(* again from the resulting state.  The outcome is legal, is a fixed point *)
(* and reads back as the value.                                            *)
(***************************************************************************)
EXTENDS KLayout, KFormatter, KParse, KGen, Json, IOUtils
CONSTANTS Families, Widths
Emit == IOEnv.KV_EMIT
QFamilies == {<<1, 5, {0, 1}>>, <<2, 5, {0, 1}>>, <<3, 2, {0, 1}>>, <<4, 1, {0}>>}
QWidths == {-1, 0, 6, 9, 12, 17, 23, 60}
TFamilies == {<<1, 5, {0, 1}>>, <<2, 5, {0, 1, 2, 3}>>, <<3, 4, {0, 1, 2, 3}>>, <<4, 2, {0, 1}>>, <<5, 1, {0, 1}>>}
TWidths == -1..40 \union {60, 65535}

VARIABLES tr, N, cfg, F, done
vars == <<tr, N, cfg, F, done>>

(* identities on for all kinds, for none, or for all but one *)
Flags == {<<TRUE, TRUE, TRUE, TRUE, TRUE>>, <<FALSE, FALSE, FALSE, FALSE, FALSE>>,
          <<FALSE, TRUE, TRUE, TRUE, TRUE>>, <<TRUE, FALSE, TRUE, FALSE, TRUE>>, <<FALSE, FALSE, TRUE, FALSE, FALSE>>,
          <<FALSE, TRUE, TRUE, FALSE, FALSE>>}
NoId(t) == t.id = <<>>
(* entries whose keys can span lines, for every width around those of their lines *)
Wide == {OComp("tuple", <<>>, <<>>, <<>>, <<LOne, LHalf>>), OComp("seq", <<>>, <<>>, <<>>, <<LHalf, LTrue>>),
         OComp("cntr", <<"a">>, <<<<97>>>>, <<>>, <<LOne>>), OComp("map", <<>>, <<>>, <<LOne>>, <<LTrue>>)}
Entries == {OComp("map", <<>>, <<>>, <<a>>, <<b>>) : a \in Wide, b \in Wide}
Spanning == {Dress(t, 1, m) : t \in Entries \union {OComp("seq", <<>>, <<>>, <<>>, <<t>>) : t \in Entries}
                                   \union {OComp("cntr", <<"a">>, <<<<97>>>>, <<>>, <<t>>) : t \in Entries}, m \in {0, 2}}
Configured(w) ==
    \E g \in (IF NoId(tr) THEN {<<TRUE, FALSE, TRUE, FALSE, TRUE>>} ELSE Flags) :
       cfg = [ip |-> g[1], it |-> g[2], ic |-> g[3], is |-> g[4], im |-> g[5], w |-> w]
Init ==
    /\ \/ /\ tr \in UNION {Family(f[1], f[2], f[3]) : f \in Families}
          /\ \E w \in Widths : Configured(w)
       \/ /\ tr \in Spanning
          /\ \E w \in 1..22 : Configured(w)
    /\ N = Nav(tr)
    /\ F = InitF(N)
    /\ done = 0
Next ==
    /\ done < 1
    /\ F' = ApplyConfig(N, F, cfg)
    /\ done' = done + 1
    /\ UNCHANGED <<tr, N, cfg>>
Spec == Init /\ [][Next]_vars

T == Text(N, F)
X == [PlainX(T) EXCEPT !.b = [i \in 1..Len(T) + 1 |-> IF Starts(T, i, LBytes.t) THEN LBytes.p ELSE ""]]
Doc == Parse(T, X)

Rules == Legal(N, F)
(* only the configuration decides which identities are written *)
Ids == done = 1 => \A i \in 1..Len(N) : F[i].id = KindFlag(N[i], cfg)
(* no limit, or room enough: one line *)
OneLine == (done = 1 /\ (cfg.w < 0 \/ cfg.w >= 4 * Len(T) + 20)) => \A i \in 1..Len(N) : F[i].line = Inline
Stable == done = 1 => ApplyConfig(N, F, cfg) = F
RoundTrip == done = 1 => Doc.r = "ok" /\ FullN(Doc.v) = Shown(N, F, 1)

RECURSIVE Plain(_)
Plain(t) ==
    [k |-> IF t.k \in {"tuple", "cntr"} /\ t.c = <<>> THEN "unit" ELSE t.k,
     id |-> <<>>, p |-> t.p, nm |-> t.nm,
     ks |-> [i \in 1..Len(t.ks) |-> Plain(t.ks[i])], c |-> [i \in 1..Len(t.c) |-> Plain(t.c[i])]]

Vector ==
    CASE Emit = "K01" -> [in |-> [tree |-> Wire(tr), cfg |-> cfg], exp |-> [r |-> "ok", v |-> Plain(tr)]]
      [] Emit = "K05" -> [in |-> [tree |-> Wire(tr), ops |-> <<>>, cfg |-> cfg, def |-> cfg = DefaultCfg],
                          exp |-> [r |-> "ok", before |-> InitF(N), fmts |-> F]]
Emitted == Emit = "" \/ done = 0 \/ PrintT(ToJson(Vector))
=============================================================================
