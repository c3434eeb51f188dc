------------------------------- MODULE TR_K20 -------------------------------
(***************************************************************************)
(* Texts tried as identities of a value, each borrowed and owned; or a     *)
(* container of the numbers 1, 2, .. under a list of names, built in four  *)
(* ways, with the fields found under some probes (0 if none).              *)
(***************************************************************************)
EXTENDS KNames, KTrace
Ident(s, o) ==
    o = IF IsId(s) THEN [ok |-> TRUE, id |-> <<s>>, raw |-> <<s>>, same |-> TRUE]
        ELSE [ok |-> FALSE, id |-> <<>>, raw |-> <<>>, same |-> TRUE]
Built(in, o) ==
    LET S == {in.s[i] : i \in 1..Len(in.s)}
    IN IF \E n \in S : ~IsField(n) THEN o = [ok |-> FALSE, id |-> <<>>, f |-> <<>>]
       ELSE /\ o.ok /\ o.id = <<>> /\ Len(o.f) = 1
            /\ LET f == o.f[1]
               IN /\ Len(f.nm) = Cardinality(S) /\ {f.nm[i] : i \in 1..Len(f.nm)} = S
                  /\ Len(f.c) = Len(f.nm) /\ \A i \in 1..Len(f.nm) : f.c[i] \in Under(in.s, f.nm[i])
                  /\ Len(f.get) = Len(in.probes)
                  /\ \A i \in 1..Len(f.get) :
                       IF in.probes[i] \in S
                       THEN \E j \in 1..Len(f.nm) : f.nm[j] = in.probes[i] /\ f.c[j] = f.get[i]
                       ELSE f.get[i] = 0
Ok(e) ==
    /\ e.obs.r = "ok"
    /\ IF e.in.o = "id"
       THEN /\ Len(e.obs.ids) = Len(e.in.s)
            /\ \A i \in 1..Len(e.in.s) : \A j \in 1..2 : Ident(e.in.s[i], e.obs.ids[i][j])
       ELSE Len(e.obs.cntr) = 4 /\ \A j \in 1..4 : Built(e.in, e.obs.cntr[j])
Conforms == Events[l].bad \/ Ok(Events[l])
Rejects == Events[l].bad => ~Ok(Events[l])
=============================================================================
