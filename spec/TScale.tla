------------------------------- MODULE TScale -------------------------------
(* Validation of recorded runs over large stores. *)
EXTENDS Scale, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
Events == Traces[t].ev
W == Traces[t].words
T == Traces[t].T

Init == t \in 1..Len(Traces) /\ l = 1 /\ ScaleInit
Same(seq, S) == Len(seq) = Cardinality(S) /\ {seq[i] : i \in 1..Len(seq)} = S
Expected(e) == LET S == TLCEval(Answer(W, e.q)) IN IF e.thr = 1 THEN Threads(S, T) ELSE S

Step(e) ==
  CASE e.op = "add" -> Added(e.kind, e.a, e.b)
    [] e.op = "del" -> Removed(e.k)
    [] e.op = "empty" -> Emptied
    [] e.op = "index" -> e.rc = 0 /\ IndexAll
    [] e.op = "search" -> LET S == TLCEval(Expected(e)) IN
                          /\ e.rc = (IF S = {} THEN 1 ELSE 0) /\ Same(e.res, S) /\ UNCHANGED scvars
    [] e.op = "dump" -> \* for every word, the messages listed for it
                        /\ \A j \in 1..Len(W) : \* a listed occurrence is one, and the other way round
                             LET d == e.lists[j] IN Same(d, {i \in idx : Occurs(W[j], i)})
                        /\ UNCHANGED scvars
Short(e) == [op |-> e.op, rc |-> IF "rc" \in DOMAIN e THEN e.rc ELSE 0, text |-> IF "text" \in DOMAIN e THEN e.text ELSE "",
             n |-> IF e.op = "search" THEN Len(e.res) ELSE 0, want |-> IF e.op = "search" THEN Cardinality(Expected(e)) ELSE 0, indexed |-> Cardinality(idx)]
Next ==
  \/ /\ l > 0 /\ l <= Len(Events)
     /\ LET e == Events[l] IN
        \/ Step(e) /\ l' = l + 1 /\ t' = t
        \/ /\ ~ENABLED Step(e)
           /\ PrintT("@@MISMATCH " \o ToJson([t |-> t, l |-> l, event |-> Short(e)]))
           /\ l' = -1 /\ UNCHANGED <<t, live, idx>>
  \/ /\ l = Len(Events) + 1
     /\ PrintT("@@END " \o ToJson(t))
     /\ l' = -2 /\ UNCHANGED <<t, live, idx>>
View == <<t, l>>
=============================================================================
