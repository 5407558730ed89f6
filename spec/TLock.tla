------------------------------- MODULE TLock --------------------------------
(* Validation of recorded runs of several processes on one database. *)
EXTENDS Lock, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
Events == Traces[t].ev

Init == t \in 1..Len(Traces) /\ l = 1 /\ LockInit
Report(e) == PrintT("@@MISMATCH " \o ToJson([t |-> t, l |-> l, event |-> e, owner |-> owner, files |-> files, procs |-> procs]))
Next ==
  \/ /\ l > 0 /\ l <= Len(Events)
     /\ IF Allowed(Events[l]) \/ (Report(Events[l]) /\ FALSE)
        THEN Effect(Events[l]) /\ l' = l + 1 /\ t' = t
        ELSE l' = -1 /\ UNCHANGED <<t, owner, files, procs>>
  \/ /\ l = Len(Events) + 1
     /\ PrintT("@@END " \o ToJson(t))
     /\ l' = -2 /\ UNCHANGED <<t, owner, files, procs>>
View == <<t, l>>
=============================================================================
