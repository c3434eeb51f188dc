------------------------------- MODULE TR_K15 -------------------------------
(* Data and what came back through text. *)
EXTENDS KSerde, KTrace
Ok(e) == e.obs.r = "ok" /\ Value(e.obs.v) = Value(e.in.d)
Conforms == Events[l].bad \/ Ok(Events[l])
Rejects == Events[l].bad => ~Ok(Events[l])
=============================================================================
