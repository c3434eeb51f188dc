------------------------------- MODULE TR_K27 -------------------------------
(* Attempts and what they said. *)
EXTENDS KRefuse, KTrace
Ok(e) == e.obs.r = "ok" /\ Says(e.in, e.obs)
Conforms == Events[l].bad \/ Ok(Events[l])
Rejects == Events[l].bad => ~Ok(Events[l])
=============================================================================
