------------------------------ MODULE TR_K04 ------------------------------
(* the text is exactly the prescribed layout, appended to the buffer       *)
EXTENDS KLayout, KTrace
Ok(e) ==
    e.obs.r = "ok" /\ LET N == Nav(e.in.tree) IN
                      Len(e.obs.fmts) = Len(N) /\ e.obs.text = e.in.pre \o Text(N, e.obs.fmts)
Conforms == Events[l].bad \/ Ok(Events[l])
Rejects == Events[l].bad => ~Ok(Events[l])
=============================================================================
