------------------------------ MODULE TMairix -------------------------------
(* Validation of recorded histories of a mail store under mairix.  A trace is *)
(*   today : [y, m, d],  ev : sequence of events                              *)
(*     put    id, path, kind, raw | texts | parts, mtime, size                *)
(*     del    id            mv  id, to, path                                  *)
(*     index  fast, rc                                                        *)
(*            (with vanished = id: that file was removed while the run went on)  *)
(*     search q, thr, rc, res (sequence of <<id, start, end>>)                *)
(*     dump   entries (identity, or <<>> if vanished), words, purged          *)
(*     fsearch q, thr, aug, fmt, out, rc, count, items | raw: a search into    *)
(*            the match folder out, and what that folder then holds           *)
(*     outset out, fmt, items | raw : the user changed the match folder       *)
(*            (with stale = ids: as far as these files have not since changed; *)
(*            with limit: what else is in the folder is messages that match)   *)
(*     refused out : a search into an indexed folder                          *)
(*     crash  rc, how : an index run that was killed, interrupted or failed   *)
(*     save, restore  : the database is put aside, put back                   *)
(*     lost   what : an operation of the user's failed                        *)
(*   Events of runs may carry diff: the files of the user's tree that the run  *)
(*   created, changed or removed                                              *)
EXTENDS MatchFolder, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l,
          saved,      \* the index at the last save event
          br          \* which outcome an interrupted run is taken to have had

Today == Attr(Traces[t], "today", [y |-> 2020, m |-> 1, d |-> 1])
Events == Traces[t].ev

Init == /\ t \in 1..Len(Traces)
        /\ l = 1
        /\ store = NoFiles
        /\ index = NoFiles
        /\ out = NoFiles
        /\ saved = NoFiles /\ br = 0

Step(e) ==
  CASE e.op = "put" -> Put(e.id, e) /\ UNCHANGED out
    [] e.op = "del" -> Delete(e.id) /\ UNCHANGED out
    [] e.op = "mv" -> Move(e.id, e.to, e.path) /\ UNCHANGED out
    [] e.op = "index" /\ "vanished" \in DOMAIN e -> VanishRun(e.vanished) /\ UNCHANGED out
    [] e.op = "index" -> IndexRun(Attr(e, "fast", 0)) /\ UNCHANGED out
    [] e.op \in {"fsearch", "outset"} -> Deliver(e) /\ UNCHANGED <<store, index>>
    [] e.op = "crash" -> (IF br' = 1 THEN IndexRun(0) ELSE UNCHANGED <<store, index>>) /\ UNCHANGED out
    [] e.op = "restore" -> index' = saved /\ UNCHANGED <<store, out>>
    [] OTHER -> UNCHANGED <<store, index, out>>

(* What the event reports must be what the specification says *)
Report(e, what) ==
  PrintT("@@MISMATCH " \o ToJson([t |-> t, l |-> l, event |-> IF e.op \in {"search", "refused", "lost"} THEN e ELSE [op |-> e.op], expected |-> what]))

SearchOK(e) ==
  LET a == AnswerSets(e.q, e.thr, Today)
      got == RangeOf(e.res)
      ok == IF Refused(e.q) THEN e.rc # 0 /\ e.rc # 1 /\ e.res = <<>>
            ELSE IF Flat(index) = <<>> /\ \A id \in DOMAIN index : index[id].damaged = 0 THEN e.rc # 0 /\ e.res = <<>>
            ELSE /\ a.must \subseteq got /\ \A z \in got \ a.may : FromDamage(z, a)
                 /\ Len(e.res) = Cardinality(got)
                 /\ e.rc \in IF e.res # <<>> THEN {0} ELSE IF Flat(index) = <<>> THEN {1, 2, 3} ELSE {1}
  IN ok \/ (Report(e, a) /\ FALSE)
IndexOK(e) == e.rc = 0 \/ (Report(e, "index run ends with exit status 0") /\ FALSE)

(* The dumped index: one entry per message, every word with exactly the       *)
(* messages it occurs in; after a purge nothing of vanished messages.          *)
LiveOnly(e) == SelectSeq(e.entries, LAMBDA x : x # <<>>)
Postings(e, ws) ==      \* word -> identities of the live entries listed
  {<<ws[k][1], {e.entries[n] : n \in {m \in RangeOf(ws[k][2]) : e.entries[m] # <<>>}}>> : k \in 1..Len(ws)}
Expected(F, f, more) ==
  LET W == UNION {F[i].x[f] : i \in 1..Len(F)}
  IN {<<w, {F[i].id : i \in {j \in 1..Len(F) : w \in F[j].x[f]}}>> : w \in W}
NonEmpty(P) == {p \in P : p[2] # {}}
DumpOK(e) ==
  LET F == Flat(index)
      Ids == {F[i].id : i \in 1..Len(F)}
      purged == Attr(e, "purged", 0) = 1
      inrange(f) == \A k \in 1..Len(e.words[f]) : RangeOf(e.words[f][k][2]) \subseteq 1..Len(e.entries)
      got(f) == LET P == Postings(e, e.words[f]) IN IF purged /\ f # "m" THEN P ELSE NonEmpty(P)
      exp(f) == Expected(F, IF f = "i" THEN "ids" ELSE f, {})
      bad == {f \in DOMAIN e.words : ~inrange(f) \/ got(f) # exp(f)}
      ok == /\ e.rc = 0
            /\ RangeOf(LiveOnly(e)) = Ids /\ Len(LiveOnly(e)) = Cardinality(Ids)
            /\ purged => Len(e.entries) = Len(F)
            /\ bad = {}
  IN ok \/ F = <<>> \/ (Report(e, [entries |-> Ids, dumped |-> e.entries,
                       words |-> [f \in bad |-> IF inrange(f) THEN [missing |-> exp(f) \ got(f), extra |-> got(f) \ exp(f)]
                                                 ELSE [missing |-> {}, extra |-> {}]]]) /\ FALSE)

(* When some files have changed since they were indexed or are damaged, the    *)
(* other matches are delivered all the same.                                  *)
StaleOK(e) ==
  LET a == AnswerSets(e.q, e.thr, Today)
      sure == {z \in a.must \cap a.exact : z[1] \notin RangeOf(e.stale) /\ {"raw", "bytes"} \cap DOMAIN store[z[1]] # {}}
      new == SigSeq(sure, e.fmt)
      got == ItemsOf(e)
      all == SigSeq({z \in a.must \cap a.exact : z[1] \in DOMAIN store}, e.fmt)
      ok == \/ Flat(index) = <<>> /\ e.rc # 0
            \/ /\ e.rc \in (IF a.must # {} THEN {0} ELSE {0, 1})
               /\ e.count >= Cardinality(a.must)
               /\ \A x \in RangeOf(new) : Count(got, x) >= Count(new, x)
               /\ "limit" \notin DOMAIN e \/ \A x \in RangeOf(got) : Count(got, x) <= Count(all, x) + (IF e.aug = 1 \/ e.fmt = "imap" THEN Count(Before(e), x) ELSE 0)
  IN ok \/ (Report([e EXCEPT !.op = "fsearch"], [surely |-> sure, holds |-> got]) /\ FALSE)
FSearchOK1(e) ==
  LET a == AnswerSets(e.q, e.thr, Today)
      ok == IF Refused(e.q) \/ Flat(index) = <<>> THEN e.rc # 0
            ELSE /\ e.count = Cardinality(a.must)
                 /\ e.rc = IF a.must = {} THEN 1 ELSE 0
                 /\ HoldsExactly(e, SigSeq(a.must, e.fmt))
  IN ok \/ (Report([e EXCEPT !.op = "fsearch"], [matches |-> a.must, holds |-> ItemsOf(e), was |-> Before(e)]) /\ FALSE)
FSearchOK(e) == IF "stale" \in DOMAIN e THEN StaleOK(e) ELSE FSearchOK1(e)
RefusedOK(e) == (e.rc \notin {0, 1} /\ e.diff = <<>>) \/ (Report(e, "a search into an indexed folder is refused and changes nothing") /\ FALSE)
DiffOK(e) == LET bad == ForbiddenChanges(e) IN bad = {} \/ (Report(e, [changed |-> bad]) /\ FALSE)

Accept1(e) ==
  CASE e.op = "search" -> SearchOK(e)
    [] e.op = "fsearch" -> FSearchOK(e)
    [] e.op = "refused" -> RefusedOK(e)
    [] e.op = "index" -> IndexOK(e)
    [] e.op = "dump" -> DumpOK(e)
    [] e.op = "lost" -> Report(e, "the user's own changes to the store are possible") /\ FALSE
    [] OTHER -> TRUE
Accept(e) == Accept1(e) /\ DiffOK(e)

(* An index run that did not end normally has left the database as it was or  *)
(* as it was to be; one that says it succeeded has stored the new one.        *)
Branch(e) ==
  CASE e.op = "crash" -> br' \in IF e.rc = 0 THEN {1} ELSE {0, 1}
    [] e.op = "restore" -> br' = 0
    [] e.op = "index" -> br' = 0      \* the two come to the same now
    [] OTHER -> br' = br

Next ==
  \/ /\ l > 0 /\ l <= Len(Events)
     /\ IF Accept(Events[l])
        THEN /\ Branch(Events[l])
             /\ Step(Events[l]) /\ l' = l + 1 /\ t' = t
             /\ saved' = IF Events[l].op = "save" THEN index ELSE saved
        ELSE l' = -1 /\ UNCHANGED <<t, store, index, out, saved, br>>
  \/ /\ l = Len(Events) + 1
     /\ PrintT("@@END " \o ToJson(t))
     /\ l' = -2 /\ UNCHANGED <<t, store, index, out, saved, br>>

(* the store and the index are functions of the position in the trace and of the choice made *)
View == <<t, l, br>>
=============================================================================
