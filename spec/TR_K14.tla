------------------------------- MODULE TR_K14 -------------------------------
(* Data, its type, and what came back from the owned, borrowed and original encoded form. *)
EXTENDS KSerde, KTrace
Same(o, d) == o.r = "ok" /\ Value(o.v) = Value(d)
Ok(e) == /\ e.obs.r = "ok"
         /\ Same(e.obs.own, e.in.d) /\ Same(e.obs.brw, e.in.d) /\ Same(e.obs.now, e.in.d)
Conforms == Events[l].bad \/ Ok(Events[l])
Rejects == Events[l].bad => ~Ok(Events[l])
=============================================================================
