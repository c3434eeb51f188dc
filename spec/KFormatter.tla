---------------------------- MODULE KFormatter ----------------------------
(***************************************************************************)
(* The formatter as a state machine over F (see KLayout): initial state,   *)
(* representation requests, identity switches, and the application of a    *)
(* configuration cfg = [ip, it, ic, is, im : BOOLEAN, w : -1 or 0..65535]  *)
(* (identity display per kind, width limit).                               *)
(***************************************************************************)
EXTENDS KTree

Inline == 0
Concise == 1
Verbose == 2

(* keys, and sequences or maps without a field name, have to be delimited *)
MaxLine(N, i) ==
    LET nd == N[i]
        m == IF IsPrim(nd.k) \/ nd.vs = <<>> THEN Inline
             ELSE IF nd.k = "tuple" THEN Concise ELSE Verbose
        delimited == nd.key \/ (nd.k \in {"seq", "map"} /\ nd.par > 0 /\ N[nd.par].k # "cntr")
    IN IF delimited THEN Min2(m, Concise) ELSE m

RootCap(nd) == IF nd.k \in {"seq", "map"} THEN Concise ELSE Verbose

(* most expanded legal state *)
InitF(N) ==
    LET L[i \in 1..Len(N)] ==
          Min2(MaxLine(N, i), IF i = 1 THEN RootCap(N[1]) ELSE L[N[i].par])
    IN [i \in 1..Len(N) |-> [id |-> TRUE, line |-> L[i]]]

(* the rules every reachable state obeys *)
Legal(N, F) ==
    /\ Len(F) = Len(N)
    /\ \A i \in 1..Len(N) :
         /\ F[i].line <= MaxLine(N, i)
         /\ i = 1 => F[i].line <= RootCap(N[i])
         /\ i > 1 => F[i].line <= F[N[i].par].line

SetLine(N, F, i, r) ==
    [j \in 1..Len(F) |->
       IF j = i THEN [F[j] EXCEPT !.line = r]
       ELSE IF j > i /\ j <= N[i].end /\ F[j].line > r THEN [F[j] EXCEPT !.line = r]
       ELSE F[j]]

(* outcome of requesting representation r for node i: [res, F] *)
Request(N, F, i, r) ==
    LET deny(e) == [res |-> e, F |-> F] IN
    IF i < 1 \/ i > Len(N) THEN deny("bounds")
    ELSE IF r = F[i].line THEN deny("ok")
    ELSE IF i = 1 /\ r = Verbose /\ N[1].k \in {"seq", "map"} THEN deny("root")
    ELSE IF r > MaxLine(N, i) THEN deny("high" \o ToString(MaxLine(N, i)) \o ToString(r))
    ELSE IF i > 1 /\ r > F[N[i].par].line
         THEN deny(IF F[N[i].par].line = Inline THEN "pinline" ELSE "pconcise")
    ELSE [res |-> "ok", F |-> SetLine(N, F, i, r)]

SetId(N, F, i, b) ==
    IF i < 1 \/ i > Len(N) THEN [res |-> "bounds", F |-> F]
    ELSE [res |-> "ok", F |-> [F EXCEPT ![i].id = b]]

(***************************************************************************)
(* Widths                                                                  *)
(***************************************************************************)
IdLen(nd) == IF nd.id = <<>> THEN 0 ELSE Len(nd.id[1])
SumOver(S(_), n) == FoldLeft(LAMBDA a, j : a + S(j), 0, Idx(n))
NameSum(nd) == SumOver(LAMBDA j : Len(nd.nm[j]), Len(nd.nm))

InlineOwn(nd, cfg) ==
    LET n == Len(nd.vs)
        seps == 2 * Sub0(n, 1)
        pid == IF cfg.ip THEN IdLen(nd) + 3 ELSE 0
        nid(on) == IF IdLen(nd) > 0 /\ on THEN IdLen(nd) + 1 ELSE 0
    IN CASE nd.k = "unit" -> IF IdLen(nd) > 0 THEN IdLen(nd) ELSE 2
         [] nd.k = "bool" -> pid + (IF nd.p = "true" THEN 4 ELSE 5)
         [] nd.k = "num"  -> pid + nd.w
         [] nd.k = "str"  -> 2 + pid + nd.w
         [] nd.k = "barr" -> 3 + pid + 2 * nd.w + 2 * Sub0(nd.w, 1)
         [] nd.k = "tuple" -> 2 + seps + nid(cfg.it)
         [] nd.k = "seq" -> 2 + seps + nid(cfg.is)
         [] nd.k = "cntr" -> 2 + seps + NameSum(nd) + 3 * n + nid(cfg.ic)
         [] nd.k = "map" -> 2 + seps + 2 * n + nid(cfg.im)

(* whole subtree on one line: sums over the contiguous index range *)
InlineW(N, cfg) ==
    LET own == [i \in 1..Len(N) |-> InlineOwn(N[i], cfg)]
        pre == FoldLeft(LAMBDA a, x : Append(a, a[Len(a)] + x), <<0>>, own)
    IN [i \in 1..Len(N) |-> pre[N[i].end + 1] - pre[i]]

ConciseOwn(nd, cfg) ==
    LET on == CASE nd.k = "tuple" -> cfg.it [] nd.k = "cntr" -> cfg.ic
                [] nd.k = "seq" -> cfg.is [] nd.k = "map" -> cfg.im [] OTHER -> FALSE
    IN IF IsPrim(nd.k) THEN InlineOwn(nd, cfg)
       ELSE 1 + (IF on THEN IdLen(nd) + 1 ELSE 0)

(* widest line when every compound below is concise; computed from the     *)
(* last node backwards because children have larger indices                *)
ConciseW(N, cfg, iw) ==
    LET n == Len(N)
        step(a, q) ==
          LET i == n + 1 - q
              nd == N[i]
              \* a[j] holds the width of node (n+1-j)
              wd(v) == a[n + 1 - v]
              extra(j) == CASE nd.k = "cntr" -> Len(nd.nm[j]) + 3
                            [] nd.k = "map" -> iw[nd.ks[j]] + 2
                            [] OTHER -> 0
          IN Append(a, FoldLeft(LAMBDA m, j : Max2(m, 4 + extra(j) + wd(nd.vs[j])),
                                ConciseOwn(nd, cfg), Idx(Len(nd.vs))))
        r == FoldLeft(step, <<>>, Idx(n))
    IN [i \in 1..n |-> r[n + 1 - i]]

(***************************************************************************)
(* Column in which node i starts under the representations chosen so far   *)
(***************************************************************************)
ChildCol(N, F, iw, par, ch) ==
    LET pd == N[par] IN
    CASE pd.k \in {"tuple", "seq"} -> 4
      [] pd.k = "cntr" -> 4 + Len(pd.nm[N[ch].pos + 1]) + 3
      [] pd.k = "map" -> IF N[ch].key THEN 4
                         ELSE LET kk == pd.ks[N[ch].pos + 1]
                              IN 4 + (IF F[kk].line = Inline THEN iw[kk] ELSE 1) + 2

VerboseCol(N, par, ch) ==
    CASE N[par].k = "seq" -> 0
      [] N[par].k = "cntr" -> IF N[ch].k = "cntr" THEN 4 ELSE 0
      [] N[par].k = "map" -> IF N[ch].key THEN 0 ELSE 4

RECURSIVE Climb(_, _, _, _, _)
Climb(N, F, iw, ch, off) ==
    LET par == N[ch].par IN
    IF par = 0 THEN (IF F[ch].line = Verbose THEN Sub0(off, 4) ELSE off)
    ELSE Climb(N, F, iw, par,
               off + (CASE F[par].line = Inline -> 0
                        [] F[par].line = Concise -> ChildCol(N, F, iw, par, ch)
                        [] F[par].line = Verbose -> VerboseCol(N, par, ch)))

Offset(N, F, iw, i) ==
    LET par == N[i].par
        first == IF F[par].line = Inline THEN 0 ELSE ChildCol(N, F, iw, par, i)
    IN Climb(N, F, iw, par, first)

MinLine(i, lim, iw, cw) ==
    IF lim < 0 THEN Inline
    ELSE IF cw[i] > lim THEN Verbose
    ELSE IF iw[i] > lim THEN Concise
    ELSE Inline

KidsKeysFirst(nd) == nd.ks \o nd.vs
RECURSIVE Bfs(_, _, _)
Bfs(N, todo, out) ==
    IF todo = <<>> THEN out
    ELSE Bfs(N, Tail(todo) \o KidsKeysFirst(N[Head(todo)]), Append(out, Head(todo)))
Breadth(N, i) == Bfs(N, KidsKeysFirst(N[i]), <<>>)

(* the configuration used when none is given *)
DefaultCfg == [ip |-> FALSE, it |-> TRUE, ic |-> TRUE, is |-> FALSE, im |-> FALSE, w |-> 60]

KindFlag(nd, cfg) ==
    CASE IsPrim(nd.k) -> cfg.ip [] nd.k = "tuple" -> cfg.it [] nd.k = "cntr" -> cfg.ic
      [] nd.k = "seq" -> cfg.is [] nd.k = "map" -> cfg.im

ApplyConfig(N, F0, cfg) ==
    LET F1 == [i \in 1..Len(N) |-> [F0[i] EXCEPT !.id = KindFlag(N[i], cfg)]]
        iw == InlineW(N, cfg)
        cw == ConciseW(N, cfg, iw)
        F2 == Request(N, F1, 1, MinLine(1, cfg.w, iw, cw)).F
        step(F, i) ==
          LET lim == IF cfg.w < 0 THEN -1 ELSE Sub0(cfg.w, Offset(N, F, iw, i))
              r == MinLine(i, lim, iw, cw)
              r2 == IF r = Concise /\ N[i].k = "cntr" /\ N[N[i].par].k = "seq" THEN Verbose ELSE r
          IN Request(N, F, i, r2).F
    IN FoldLeft(step, F2, Breadth(N, 1))

(* one operation of a session: [o, i, r, b, cfg] with i counted from 0 *)
Apply(N, F, op) ==
    CASE op.o = "repr" -> Request(N, F, op.i + 1, op.r)
      [] op.o = "id"   -> SetId(N, F, op.i + 1, op.b)
      [] op.o = "cfg"  -> [res |-> "ok", F |-> ApplyConfig(N, F, op.cfg)]
=============================================================================
