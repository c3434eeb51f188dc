------------------------------ MODULE TR_K08 ------------------------------
(***************************************************************************)
(* However a value was written, it reads back with the identities written. *)
(* Document: the text really is a document of that value (specification's  *)
(* own reading), so the writer of the texts is checked as well.            *)
(***************************************************************************)
EXTENDS KLayout, KParse, KTrace
Same(v, e) == FullN(v) = FullN(e.in.tree)
Ok(e) == e.obs.r = "ok" /\ Same(e.obs.v, e)
Document == LET e == Events[l]
                r == Parse(e.in.s, e.in.L)
            IN r.r = "ok" /\ Same(r.v, e)
Conforms == Events[l].bad \/ Ok(Events[l])
Rejects == Events[l].bad => ~Ok(Events[l])
=============================================================================
