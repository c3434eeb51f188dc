------------------------------- MODULE MC_Fmt -------------------------------
(***************************************************************************)
(* The formatter state machine on every small value.  In every reachable   *)
(* state the rules hold and the written text, read by the specified        *)
(* notation, gives the value back with the displayed identities.  Each     *)
(* state is also emitted as a test vector for the implementation, with a   *)
(* shortest request history that reaches it.                               *)
(***************************************************************************)
EXTENDS KLayout, KFormatter, KParse, KGen, Json, IOUtils
CONSTANTS Families,     \* set of <<nodes, leaf pool, identity modes>>
          WithIds       \* whether identity switches are explored
Emit == IOEnv.KV_EMIT
QFamilies == {<<1, 5, {0, 1}>>, <<2, 5, {0, 1}>>, <<3, 4, {0, 1}>>, <<4, 1, {0, 2, 3}>>}
(* fewer values where every single request is tried in every state *)
RFamilies == {<<1, 5, {0, 1}>>, <<2, 3, {0, 1}>>, <<3, 1, {0, 1}>>, <<4, 1, {0}>>}
TFamilies == {<<1, 5, {0, 1}>>, <<2, 5, {0, 1, 2, 3}>>, <<3, 5, {0, 1}>>, <<4, 3, {0}>>, <<4, 1, {1, 2, 3}>>, <<5, 1, {0}>>}
RTFamilies == {<<1, 5, {0, 1}>>, <<2, 3, {0, 1}>>, <<3, 3, {0, 1}>>, <<4, 1, {0, 2, 3}>>, <<5, 1, {0}>>}

VARIABLES tr, N, F, hist
vars == <<tr, N, F, hist>>
View == <<tr, F>>

NoCfg == [ip |-> FALSE, it |-> FALSE, ic |-> FALSE, is |-> FALSE, im |-> FALSE, w |-> 0]
OpRepr(i, r) == [o |-> "repr", i |-> i - 1, r |-> r, b |-> FALSE, cfg |-> NoCfg]
OpId(i, b) == [o |-> "id", i |-> i - 1, r |-> 0, b |-> b, cfg |-> NoCfg]

Init ==
    /\ tr \in UNION {Family(f[1], f[2], f[3]) : f \in Families}
    /\ N = Nav(tr)
    /\ F = InitF(N)
    /\ hist = <<>>

Change(op) ==
    LET q == Apply(N, F, op) IN
    /\ q.F # F
    /\ F' = q.F
    /\ hist' = Append(hist, op)
    /\ UNCHANGED <<tr, N>>
SetRepr == \E i \in 1..Len(N), r \in 0..2 : Change(OpRepr(i, r))
SwitchId == WithIds /\ \E i \in 1..Len(N) : HasId(N[i]) /\ Change(OpId(i, ~F[i].id))
Next == SetRepr \/ SwitchId
Spec == Init /\ [][Next]_vars

Rules == Legal(N, F)

T == Text(N, F)
X == [PlainX(T) EXCEPT !.b = [i \in 1..Len(T) + 1 |-> IF Starts(T, i, LBytes.t) THEN LBytes.p ELSE ""]]
Doc == Parse(T, X)
RoundTrip == Doc.r = "ok" /\ FullN(Doc.v) = Shown(N, F, 1)

(* every single request, with its outcome *)
Fan == SetToSeq({OpRepr(i, r) : i \in 1..Len(N) + 1, r \in 0..2}
                \union {OpId(i, b) : i \in 1..Len(N) + 1, b \in BOOLEAN})
Outcome(op) == LET q == Apply(N, F, op) IN [res |-> q.res, fmts |-> q.F]
Steps == FoldLeft(LAMBDA a, op : LET q == Apply(N, IF a = <<>> THEN InitF(N) ELSE a[Len(a)].fmts, op)
                                 IN Append(a, [res |-> q.res, fmts |-> q.F]), <<>>, hist)

RECURSIVE Plain(_, _)
Plain(t, ids) ==
    [k |-> IF t.k \in {"tuple", "cntr"} /\ t.c = <<>> THEN "unit" ELSE t.k,
     id |-> IF ids THEN t.id ELSE <<>>, p |-> t.p, nm |-> t.nm,
     ks |-> [i \in 1..Len(t.ks) |-> Plain(t.ks[i], ids)], c |-> [i \in 1..Len(t.c) |-> Plain(t.c[i], ids)]]

Vector ==
    CASE Emit = "K02" -> [in |-> [tree |-> Wire(tr), ops |-> hist], exp |-> [r |-> "ok", v |-> Plain(tr, FALSE)]]
      [] Emit = "K03" -> [in |-> [tree |-> Wire(tr), ops |-> hist], exp |-> [r |-> "ok", v |-> Plain(Doc.v, TRUE)]]
      [] Emit = "K04" -> [in |-> [tree |-> Wire(tr), ops |-> hist, pre |-> "", how |-> "ops"],
                          exp |-> [r |-> "ok", fmts |-> F, text |-> T]]
      [] Emit = "K06" -> [in |-> [tree |-> Wire(tr), ops |-> hist, fan |-> Fan],
                          exp |-> [r |-> "ok", init |-> InitF(N), steps |-> Steps,
                                   fan |-> [i \in 1..Len(Fan) |-> Outcome(Fan[i])]]]
Emitted == Emit = "" \/ PrintT(ToJson(Vector))
=============================================================================
