------------------------------- MODULE Trace -------------------------------
(* Validates recorded executions of the implementation against Malstroem.   *)
(* One behaviour per recorded case; every event must be a Step.  A step the *)
(* specification does not allow is reported with the names of the violated  *)
(* requirements and its observed effect is taken over, so that the rest of  *)
(* the case is judged as well.                                              *)
EXTENDS Malstroem, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLES ci, l
tvars == <<ci, l, store, memo, native>>

Ev == Cases[ci].ev
TInit == ci \in 1..Len(Cases) /\ l = 1 /\ MInit
Report(e, f) == PrintT(ToJson([reject |-> [case |-> Cases[ci].id, at |-> l, op |-> e.op, clauses |-> SetToSeq(f)]]))
TNext ==
  /\ l <= Len(Ev)
  /\ l' = l + 1 /\ ci' = ci
  /\ LET e == Ev[l] IN
       \/ Step(e)
       \/ /\ LET f == Failing(e) IN f # {} /\ Report(e, f)
          /\ Effect(e)
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
