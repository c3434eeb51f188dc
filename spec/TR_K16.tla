------------------------------- MODULE TR_K16 -------------------------------
(* A tree, a type, and the decoded data or an error. *)
EXTENDS KSerde, KTrace
Ok(e) == LET r == Dec(e.in.tree, e.in.t, e.in.own)
         IN IF r = <<>> THEN e.obs.r = "err" ELSE e.obs.r = "ok" /\ Value(e.obs.v) = r[1]
Conforms == Events[l].bad \/ Ok(Events[l])
Rejects == Events[l].bad => ~Ok(Events[l])
=============================================================================
