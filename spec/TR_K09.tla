------------------------------ MODULE TR_K09 ------------------------------
(* the parser reads exactly the language, giving exactly its values        *)
EXTENDS KParse, KTrace
Ok(e) ==
    LET r == Parse(e.in.s, IF "L" \in DOMAIN e.in THEN e.in.L ELSE e.obs.L) IN
    /\ e.obs.r = r.r
    /\ r.r = "ok" => Full(e.obs.v) = Full(r.v)
Conforms == Events[l].bad \/ Ok(Events[l])
Rejects == Events[l].bad => ~Ok(Events[l])
=============================================================================
