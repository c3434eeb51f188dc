------------------------------- MODULE TR_K19 -------------------------------
(* A tree and the walks from each of its nodes. *)
EXTENDS KNav, KTrace
Ok(e) == e.obs = Walks(e.in.tree)
Conforms == Events[l].bad \/ Ok(Events[l])
Rejects == Events[l].bad => ~Ok(Events[l])
=============================================================================
