------------------------------ MODULE TR_K05 ------------------------------
(* a configuration fixes identity display and representations              *)
EXTENDS KFormatter, KTrace
Ok(e) ==
    e.obs.r = "ok" /\ LET N == Nav(e.in.tree) IN
                      /\ Len(e.obs.before) = Len(N)
                      /\ e.obs.fmts = ApplyConfig(N, e.obs.before, IF e.in.def THEN DefaultCfg ELSE e.in.cfg)
Conforms == Events[l].bad \/ Ok(Events[l])
Rejects == Events[l].bad => ~Ok(Events[l])
=============================================================================
