------------------------------- MODULE TR_K26 -------------------------------
(* A value and its debug forms. *)
EXTENDS KShow, KTrace
Ok(e) == e.obs.r = "ok" /\ Len(e.obs.x) = Size(e.in.tree) /\ e.obs = Shown(e.in.tree, e.obs.x)
Conforms == Events[l].bad \/ Ok(Events[l])
Rejects == Events[l].bad => ~Ok(Events[l])
=============================================================================
