----------------------------- MODULE StoreModel -----------------------------
(* How a new database is stored: under another name, page by page in any      *)
(* order, and put in place by one rename when it is complete.  A run can be   *)
(* killed before and after every step, every call can fail (then the run      *)
(* reports it and ends), and later runs meet what was left.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Pages, MaxRuns
VARIABLES db, new,        \* files: <<>> (absent), or page -> version (0: not written)
          want,           \* the version the current run is to store
          pc,             \* "idle", or what the current run does next
          stored,         \* the version last put in place
          said            \* what the last run reported: "none", "ok", "error", "killed"
vars == <<db, new, want, pc, stored, said>>
Absent == <<>>
Whole(v) == [k \in 1..Pages |-> v]
Init == db = Absent /\ new = Absent /\ want = 0 /\ pc = "idle" /\ stored = 0 /\ said = "none"

Start == pc = "idle" /\ want < MaxRuns /\ want' = want + 1 /\ pc' = "unlink" /\ said' = "none" /\ UNCHANGED <<db, new, stored>>
Unlink == pc = "unlink" /\ new' = Absent /\ pc' = "create" /\ UNCHANGED <<db, want, stored, said>>
Create == pc = "create" /\ new' = Whole(0) /\ pc' = "write" /\ UNCHANGED <<db, want, stored, said>>
Write == pc = "write" /\ \E k \in 1..Pages : new[k] # want /\ new' = [new EXCEPT ![k] = want] /\ UNCHANGED <<db, want, pc, stored, said>>
Sync == pc = "write" /\ new = Whole(want) /\ pc' = "rename" /\ UNCHANGED <<db, new, want, stored, said>>
Rename == pc = "rename" /\ db' = new /\ new' = Absent /\ stored' = want /\ pc' = "done" /\ UNCHANGED <<want, said>>
Done == pc = "done" /\ said' = "ok" /\ pc' = "idle" /\ UNCHANGED <<db, new, want, stored>>
(* a call fails: the run reports it and ends, removing its file if it can *)
Fail == /\ pc \in {"create", "write", "rename"} /\ said' = "error" /\ pc' = "idle"
        /\ new' \in {new, Absent} /\ UNCHANGED <<db, want, stored>>
Kill == pc # "idle" /\ said' = "killed" /\ pc' = "idle" /\ UNCHANGED <<db, new, want, stored>>
Next == Start \/ Unlink \/ Create \/ Write \/ Sync \/ Rename \/ Done \/ Fail \/ Kill
Spec == Init /\ [][Next]_vars

(* the database is always complete: the one before or the one after *)
AlwaysWhole == db = IF stored = 0 THEN Absent ELSE Whole(stored)
(* a run that says it succeeded has stored the new one; one that reports an error has not *)
Honest == /\ (pc = "idle" /\ said = "ok" => stored = want)
          /\ (pc = "idle" /\ said = "error" => stored < want)
(* whatever was left, the next run can succeed *)
Recovers == pc = "create" => ENABLED Create
Monotone == [][stored' >= stored]_vars
=============================================================================
