------------------------------- MODULE Replay -------------------------------
(* Validation of recorded executions.  Each event records one execution of  *)
(* the implementation: its arguments and its observable results.  A run     *)
(* steps through the events; Failing(e) is the set of names of the clauses  *)
(* of the specification that event e violates (empty: accepted).            *)
EXTENDS Num, Json, IOUtils

CONSTANT Failing(_)

Events == ndJsonDeserialize(IOEnv.VERIF_EVENTS)
Lanes  == atoi(IOEnv.VERIF_LANES)
VARIABLE step

Init == step \in 1..Lanes
Next == /\ step <= Len(Events)
        /\ LET e == Events[step]
               bad == Failing(e)
           IN  PrintT("@J " \o e.id \o " " \o ToString(bad))
        /\ step' = step + Lanes
=============================================================================
