------------------------------ MODULE Verdict -------------------------------
(* Recorded observations, one per initial state: Next judges it, the invariant
   holds when nothing was found that concerns the property under check.
   A module that extends this one supplies Judge(observation), the set of pairs
   <<property, reason>> that the observation violates ("*": every property). *)
EXTENDS Naturals, Sequences, TLC
LOCAL INSTANCE Json
LOCAL INSTANCE IOUtils
LOCAL INSTANCE SequencesExt

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop  == IOEnv.PROP

Mine(bad) == {b \in bad : b[1] \in {Prop, "*"}}
Report(id, bad) == \A b \in Mine(bad) : PrintT(<<"VPBAD", b[1], id, b[2]>>)
=============================================================================
