------------------------------- MODULE TR_K11 -------------------------------
(***************************************************************************)
(* Conversions of a number to integers and doubles, directly and through   *)
(* the accessors of a value; numbers built from primitives.                *)
(***************************************************************************)
EXTENDS KNumConv, KTrace
Out(set, o) == {o[i] : i \in 1..Len(o)} = set /\ Len(o) <= 1
Ok(e) ==
    /\ e.obs.r = "ok"
    /\ IF e.in.w = "num"
       THEN /\ Out(AsU(e.in.n), e.obs.u) /\ Out(AsI(e.in.n), e.obs.i) /\ e.obs.f = AsF(e.in.n)
            /\ e.obs.vu = e.obs.u /\ e.obs.vi = e.obs.i /\ e.obs.vf = e.obs.f
       ELSE /\ e.obs.v = e.in.n.v
            /\ e.obs.kv = e.in.n.v
            /\ e.obs.h = (CASE e.in.ty \in {"u8", "u16", "u32", "u64", "u128", "usize"} -> "u"
                            [] e.in.ty \in {"i8", "i16", "i32", "i64", "i128", "isize"} -> "i"
                            [] OTHER -> "f")
Conforms == Events[l].bad \/ Ok(Events[l])
Rejects == Events[l].bad => ~Ok(Events[l])
=============================================================================
