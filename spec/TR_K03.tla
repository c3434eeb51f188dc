------------------------------ MODULE TR_K03 ------------------------------
(* identities read back are exactly the ones displayed                     *)
EXTENDS KLayout, KTrace
Ok(e) ==
    e.obs.r = "ok" /\ LET N == Nav(e.in.tree) IN
                      Len(e.obs.fmts) = Len(N) /\ FullN(e.obs.v) = Shown(N, e.obs.fmts, 1)
Conforms == Events[l].bad \/ Ok(Events[l])
Rejects == Events[l].bad => ~Ok(Events[l])
=============================================================================
