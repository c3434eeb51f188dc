------------------------------ MODULE TR_K06 ------------------------------
(***************************************************************************)
(* Sessions of formatter requests: each recorded line is one session; the  *)
(* specification's formatter takes the same requests, one action per       *)
(* request, and has to agree with the outcome and state seen after each.   *)
(***************************************************************************)
EXTENDS KFormatter, Json, IOUtils
Events == ndJsonDeserialize(IOEnv.KV_TRACE)
VARIABLES l, k, N, F, res
vars == <<l, k, N, F, res>>
Init ==
    /\ l \in 1..Len(Events)
    /\ k = 0
    /\ N = Nav(Events[l].in.tree)
    /\ F = InitF(N)
    /\ res = "ok"
Ran == Events[l].obs.r = "ok"
Op == Events[l].in.ops[k + 1]
More == Ran /\ k < Len(Events[l].in.ops)
Take(q) == /\ F' = q.F
           /\ res' = q.res
           /\ k' = k + 1
           /\ UNCHANGED <<l, N>>
Repr == More /\ Op.o = "repr" /\ Take(Request(N, F, Op.i + 1, Op.r))
Ident == More /\ Op.o = "id" /\ Take(SetId(N, F, Op.i + 1, Op.b))
(* which state a configuration leads to is not judged here, only that it is legal *)
Config == More /\ Op.o = "cfg" /\ Take([res |-> "ok", F |-> Events[l].obs.steps[k + 1].fmts])
Next == Repr \/ Ident \/ Config
Spec == Init /\ [][Next]_vars
Ok == /\ Ran
      /\ Legal(N, F)
      /\ IF k = 0 THEN Events[l].obs.init = F
         ELSE Events[l].obs.steps[k].fmts = F /\ Events[l].obs.steps[k].res = res
Conforms == Events[l].bad \/ Ok
Rejects == (Events[l].bad /\ k = 0) => ~Ok
=============================================================================
