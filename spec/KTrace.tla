------------------------------- MODULE KTrace -------------------------------
(***************************************************************************)
(* Recorded executions: one event per line, [in, obs, bad].  Lines are     *)
(* visited by independent walkers (l advances by the stride), so that all  *)
(* workers share the file.  A line with bad = TRUE was falsified on        *)
(* purpose and has to be rejected.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, IOUtils, TLC

Events == ndJsonDeserialize(IOEnv.KV_TRACE)
Stride == 16

VARIABLE l
TraceInit == l \in 1..(IF Len(Events) < Stride THEN Len(Events) ELSE Stride)
TraceNext == l + Stride <= Len(Events) /\ l' = l + Stride
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
