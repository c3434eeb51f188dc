------------------------------- MODULE TR_K23 -------------------------------
(* A described piece of data and the tree its conversion gave. *)
EXTENDS KConv, KTrace
Ok(e) ==
    LET x == Conv(e.in.d)
    IN IF x = <<>> THEN e.obs.r = "err" ELSE e.obs.r = "ok" /\ Counts(e.obs.v) = Counts(x[1])
Conforms == Events[l].bad \/ Ok(Events[l])
Rejects == Events[l].bad => ~Ok(Events[l])
=============================================================================
