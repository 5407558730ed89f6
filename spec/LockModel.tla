----------------------------- MODULE LockModel ------------------------------
(* The locking protocol of mairix, exhaustively: processes that write a file  *)
(* of their own, link it to the lock file, use the database, and unlock; with *)
(* interrupts (handled except while taking and releasing the lock) and kills. *)
EXTENDS Lock, TLC

CONSTANTS N, MaxKills

VARIABLES pc, using, pend, kills, err
all == <<owner, files, procs, pc, using, pend, kills, err>>
P == 1..N

Tmp(p) == [name |-> "tmp" \o ToString(p), lock |-> TRUE]
LockF == [name |-> LOCK, lock |-> TRUE]
Db == [name |-> "db", lock |-> FALSE]
No == [name |-> "", lock |-> FALSE]
Call(p, c, a, b, ok) == [op |-> "call", p |-> p, call |-> c, a |-> a, b |-> b, ok |-> ok]
Exit(p, rc) == [op |-> "exit", p |-> p, rc |-> rc, said |-> rc # 0]

Init == LockInit /\ pc = [p \in P |-> "new"] /\ using = {} /\ pend = {} /\ kills = 0 /\ err = FALSE

Do(p, e, next) == Effect(e) /\ err' = (err \/ ~Allowed(e)) /\ pc' = [pc EXCEPT ![p] = next]
Rest == UNCHANGED <<using, pend, kills>>

Stale == owner # 0 /\ procs[owner].life = "killed"
AllQuiet == \A p \in P : pc[p] \in {"new", "dead", "end"}
Start(p) == pc[p] = "new" /\ \E f \in BOOLEAN :
              /\ f => Stale /\ AllQuiet           \* a forced unlock is for after a crash
              /\ Do(p, [op |-> "start", p |-> p, kind |-> "index", forced |-> f], IF f THEN "force" ELSE "mk") /\ Rest
Force(p) == pc[p] = "force" /\ Do(p, Call(p, "unlink", LockF, No, owner # 0), "mk") /\ Rest
Make(p) == pc[p] = "mk" /\ Do(p, Call(p, "create", Tmp(p), No, TRUE), "link") /\ Rest
Link(p) == pc[p] = "link" /\ Do(p, Call(p, "link", Tmp(p), LockF, owner = 0), IF owner = 0 THEN "got" ELSE "busy") /\ Rest
Busy(p) == pc[p] = "busy" /\ Do(p, Call(p, "unlink", Tmp(p), No, TRUE), "fail") /\ Rest
Fail(p) == pc[p] = "fail" /\ Do(p, Exit(p, 1), "end") /\ Rest
Got(p) == pc[p] = "got" /\ Do(p, Call(p, "unlink", Tmp(p), No, TRUE), "use") /\ Rest
Use(p) == pc[p] = "use" /\ p \notin pend /\ Do(p, Call(p, "open", Db, No, TRUE), "using")
          /\ using' = using \cup {p} /\ UNCHANGED <<pend, kills>>
Using(p) == pc[p] = "using" /\ p \notin pend /\ Do(p, Call(p, "munmap", Db, No, TRUE), "unlock") /\ Rest
Unlock(p) == pc[p] = "unlock" /\ Do(p, Call(p, "unlink", LockF, No, TRUE), "ok") /\ using' = using \ {p} /\ UNCHANGED <<pend, kills>>
Ok(p) == pc[p] = "ok" /\ Do(p, Exit(p, 0), "end") /\ Rest
(* the handler runs when signals are not blocked *)
Handle(p) == p \in pend /\ pc[p] \in {"use", "using"} /\ Do(p, Call(p, "unlink", LockF, No, TRUE), "ok7")
             /\ using' = using \ {p} /\ UNCHANGED <<pend, kills>>
Ok7(p) == pc[p] = "ok7" /\ Do(p, Exit(p, 7), "end") /\ Rest
Signal(p) == /\ pc[p] \notin {"new", "end", "dead", "ok7", "force"} /\ p \notin pend
             /\ Do(p, [op |-> "signal", p |-> p], pc[p]) /\ pend' = pend \cup {p} /\ UNCHANGED <<using, kills>>
Kill(p) == /\ kills < MaxKills /\ pc[p] \notin {"new", "end", "dead"}
           /\ Do(p, [op |-> "killed", p |-> p], "dead") /\ kills' = kills + 1 /\ using' = using \ {p} /\ UNCHANGED pend

Next == \E p \in P : \/ Start(p) \/ Force(p) \/ Make(p) \/ Link(p) \/ Busy(p) \/ Fail(p) \/ Got(p) \/ Use(p) \/ Using(p)
                     \/ Unlock(p) \/ Ok(p) \/ Handle(p) \/ Ok7(p) \/ Signal(p) \/ Kill(p)
Fair == \A p \in P : WF_all(Force(p) \/ Make(p) \/ Link(p) \/ Busy(p) \/ Fail(p) \/ Got(p) \/ Use(p) \/ Using(p)
                     \/ Unlock(p) \/ Ok(p) \/ Handle(p) \/ Ok7(p))
Spec == Init /\ [][Next]_all /\ Fair

MutualExclusion == Cardinality(using) <= 1
EveryStepAllowed == ~err
(* when all have ended and none was killed, nothing is left *)
NothingLeft == (\A p \in P : pc[p] \in {"new", "end"}) => owner = 0 /\ files = None
Terminates == \A p \in P : pc[p] = "mk" ~> pc[p] \in {"end", "dead"}
=============================================================================
