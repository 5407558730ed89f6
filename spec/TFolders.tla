------------------------------ MODULE TFolders ------------------------------
(* Validation of recorded index runs over trees of folders.  Events:          *)
(*   tree   nodes       the user's files are now these                        *)
(*   conf   base, maildir, mh, mbox, omit (each a sequence of lines), follow  *)
(*   index  rc          all  rc, res (paths of all indexed messages)          *)
EXTENDS Folders, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
Events == Traces[t].ev

Init == t \in 1..Len(Traces) /\ l = 1 /\ FolderInit
Allowed(e) ==
  CASE e.op = "index" -> IndexAllowed(e.rc)
    [] e.op = "all" -> AllAllowed(e.rc, e.res)
    [] OTHER -> TRUE
Effect(e) ==
  CASE e.op = "tree" -> Change(e.nodes)
    [] e.op = "conf" -> Configure(e)
    [] e.op = "index" -> IndexFolders(e.rc)
    [] OTHER -> UNCHANGED <<tree, conf, indexed>>
Report(e) == PrintT("@@MISMATCH " \o ToJson([t |-> t, l |-> l, op |-> e.op, rc |-> e.rc,
     missing |-> IF e.op = "all" THEN {m[1] : m \in indexed.must} \ RangeOf(e.res) ELSE {},
     extra |-> IF e.op = "all" THEN RangeOf(e.res) \ {m[1] : m \in indexed.may} ELSE {}]))
Next ==
  \/ /\ l > 0 /\ l <= Len(Events)
     /\ IF Allowed(Events[l]) \/ (Report(Events[l]) /\ FALSE)
        THEN Effect(Events[l]) /\ l' = l + 1 /\ t' = t
        ELSE l' = -1 /\ UNCHANGED <<t, tree, conf, indexed>>
  \/ /\ l = Len(Events) + 1
     /\ PrintT("@@END " \o ToJson(t))
     /\ l' = -2 /\ UNCHANGED <<t, tree, conf, indexed>>
View == <<t, l>>
=============================================================================
