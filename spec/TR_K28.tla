------------------------------- MODULE TR_K28 -------------------------------
(* Values made, copied, lent, moved, written, read, encoded and decoded. *)
EXTENDS KPlace, KTrace
Ok(e) == e.obs.r = "ok" /\ Follows(e.in, e.obs)
Conforms == Events[l].bad \/ Ok(Events[l])
Rejects == Events[l].bad => ~Ok(Events[l])
=============================================================================
