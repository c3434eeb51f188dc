------------------------------ MODULE TR_K01 ------------------------------
(* text written under a configuration reads back as the same value         *)
EXTENDS KTree, KTrace
Ok(e) == e.obs.r = "ok" /\ Norm(e.obs.v) = Norm(e.in.tree)
Conforms == Events[l].bad \/ Ok(Events[l])
Rejects == Events[l].bad => ~Ok(Events[l])
=============================================================================
