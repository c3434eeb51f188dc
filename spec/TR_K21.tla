------------------------------- MODULE TR_K21 -------------------------------
(* A session over a store of values. *)
EXTENDS KStore, KTrace
Ok(e) == Session(e.in, e.obs)
Conforms == Events[l].bad \/ Ok(Events[l])
Rejects == Events[l].bad => ~Ok(Events[l])
=============================================================================
