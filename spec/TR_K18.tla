------------------------------- MODULE TR_K18 -------------------------------
(* A tree and what its navigator shows. *)
EXTENDS KNav, KTrace
Ok(e) == e.obs = Links(e.in.tree)
Conforms == Events[l].bad \/ Ok(Events[l])
Rejects == Events[l].bad => ~Ok(Events[l])
=============================================================================
