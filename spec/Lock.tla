-------------------------------- MODULE Lock --------------------------------
(* One database used by several processes.  Processes make file system calls  *)
(* on the database and on lock files; this module says what the calls do and  *)
(* which are allowed.                                                         *)
(*   events: [op, p, ...]                                                     *)
(*     start  p, kind, forced : process p begins, to unlock by force or not   *)
(*     call   p, call, a, b, ok : a call on the files a (and b)               *)
(*     signal p   : p is interrupted (it may clean up)                        *)
(*     killed p   : p ends without being able to do anything                  *)
(*     exit   p, rc, said : p ends; said: it wrote an error message           *)
(*     left   names : the lock files in the directory at the end              *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES owner,    \* process that made the lock file that is there now, 0 if there is none
          files,    \* other lock files: name -> process that made it
          procs     \* process -> [kind, forced, life, owned, contended, signalled]
vars == <<owner, files, procs>>

LOCK == "lock"
None == [x \in {} |-> 0]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Add(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
IsLockFile(n) == n.lock
Live(p) == p \in DOMAIN procs /\ procs[p].life = "run"

LockInit == owner = 0 /\ files = None /\ procs = None

(* The lock file comes to belong to the process whose call makes it appear *)
NewOwner(e) ==
  IF ~e.ok THEN owner
  ELSE IF e.call \in {"link", "symlink"} /\ e.b.name = LOCK THEN e.p
  ELSE IF e.call = "rename" /\ e.b.name = LOCK THEN e.p
  ELSE IF e.call = "rename" /\ e.a.name = LOCK THEN 0
  ELSE IF e.call = "create" /\ e.a.name = LOCK /\ owner = 0 THEN e.p
  ELSE IF e.call = "unlink" /\ e.a.name = LOCK THEN 0
  ELSE owner
NewFiles(e) ==
  IF ~e.ok THEN files
  ELSE IF e.call = "create" /\ e.a.lock /\ e.a.name # LOCK THEN Add(files, e.a.name, e.p)
  ELSE IF e.call \in {"link", "symlink"} /\ e.b.lock /\ e.b.name # LOCK THEN Add(files, e.b.name, e.p)
  ELSE IF e.call = "unlink" /\ e.a.lock THEN Drop(files, e.a.name)
  ELSE IF e.call = "rename" /\ e.a.lock THEN
    LET f == Drop(files, e.a.name) IN IF e.b.lock /\ e.b.name # LOCK THEN Add(f, e.b.name, e.p) ELSE f
  ELSE files
Mark(ps, o) == [p \in DOMAIN ps |-> [ps[p] EXCEPT !.owned = @ \/ (o = p /\ ps[p].life = "run"),
                                                  !.contended = @ \/ (o # p /\ o # 0)]]

Effect(e) ==
  CASE e.op = "start" ->
         /\ procs' = Mark(Add(procs, e.p, [kind |-> e.kind, forced |-> e.forced, life |-> "run", owned |-> FALSE,
                                     contended |-> FALSE, signalled |-> FALSE]), owner)
         /\ UNCHANGED <<owner, files>>
    [] e.op = "call" -> owner' = NewOwner(e) /\ files' = NewFiles(e) /\ procs' = Mark(procs, NewOwner(e))
    [] e.op = "signal" -> procs' = [procs EXCEPT ![e.p].signalled = TRUE] /\ UNCHANGED <<owner, files>>
    [] e.op = "killed" -> procs' = [procs EXCEPT ![e.p].life = "killed"] /\ UNCHANGED <<owner, files>>
    [] e.op = "exit" -> procs' = [procs EXCEPT ![e.p].life = "ended"] /\ UNCHANGED <<owner, files>>
    [] OTHER -> UNCHANGED vars

(***************************************************************************)
(* What is allowed                                                         *)
(***************************************************************************)
UseCalls == {"open", "openw", "create", "rename", "unlink", "truncate", "mmap", "munmap", "link", "symlink"}
UsesDb(e) == e.call \in UseCalls /\ (~e.a.lock \/ (e.call = "rename" /\ ~e.b.lock))
Takes(e) == e.ok /\ ((e.call = "unlink" /\ e.a.name = LOCK) \/ (e.call = "rename" /\ (e.a.name = LOCK \/ e.b.name = LOCK)))
CallAllowed(e) ==
  /\ UsesDb(e) => owner = e.p                       \* the database is used only under one's own lock
  /\ Takes(e) /\ owner # 0 => \/ owner = e.p           \* nobody removes the lock of another
                              \/ procs[e.p].forced /\ ~procs[e.p].owned
  /\ (e.ok /\ e.call = "unlink" /\ e.a.name \in DOMAIN files) => files[e.a.name] = e.p
ExitAllowed(e) ==
  LET q == procs[e.p]
      good == IF q.kind = "search" THEN {0, 1} ELSE IF q.kind = "fail" THEN {1, 2, 3} ELSE {0} IN
  /\ owner # e.p                                      \* the lock is gone
  /\ \A n \in DOMAIN files : files[n] # e.p            \* and so are other lock files
  /\ ~q.signalled => IF q.owned THEN e.rc \in good
                     ELSE e.rc # 0 /\ e.said /\ q.contended
Allowed(e) ==
  CASE e.op = "call" -> CallAllowed(e)
    [] e.op = "exit" -> ExitAllowed(e)
    [] e.op = "left" ->
         /\ \A n \in DOMAIN files : procs[files[n]].life = "killed"
         /\ {e.names[i] : i \in 1..Len(e.names)} = DOMAIN files \cup (IF owner # 0 THEN {LOCK} ELSE {})
         /\ owner # 0 => procs[owner].life = "killed"
    [] OTHER -> TRUE

(* At no time do two processes both believe the lock to be theirs: implied by *)
(* every call being allowed, since a lock is used only by its owner.          *)
=============================================================================
