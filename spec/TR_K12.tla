------------------------------- MODULE TR_K12 -------------------------------
(***************************************************************************)
(* num:  a number was printed; the text denotes it and reads back as it,   *)
(*       on its own and in a document.                                     *)
(* text: a text was read; the outcome is the text's meaning.               *)
(***************************************************************************)
EXTENDS KNumText, KTrace
Ok(e) ==
    IF e.in.w = "num"
    THEN /\ e.obs.r = "ok"
         /\ ReadOk(e.obs.cs, [r |-> "ok", v |-> e.in.n.v])
         /\ e.obs.back.r = "ok" /\ e.obs.back.v = e.in.n.v
         /\ e.obs.doc.r = "ok" /\ e.obs.doc.v = e.in.n.v
    ELSE e.obs.r = "ok" /\ ReadOk(e.in.cs, e.obs.back)
Conforms == Events[l].bad \/ Ok(Events[l])
Rejects == Events[l].bad => ~Ok(Events[l])
=============================================================================
