------------------------------- MODULE TR_K17 -------------------------------
(* Data and its encoded tree, or an error. *)
EXTENDS KSerde, KTrace
Ok(e) == LET r == Enc(e.in.d)
         IN IF r = <<>> THEN e.obs.r = "err" ELSE e.obs.r = "ok" /\ Content(e.obs.v) = Content(r[1])
Conforms == Events[l].bad \/ Ok(Events[l])
Rejects == Events[l].bad => ~Ok(Events[l])
=============================================================================
