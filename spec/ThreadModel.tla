---------------------------- MODULE ThreadModel -----------------------------
(* How mairix numbers threads: identifiers are taken one after another (in    *)
(* the order of a hash table, i.e. in any order), the messages of each are    *)
(* joined in a forest, and the trees are numbered, live messages first.        *)
(* Against the closure of Query!ThreadsOf, for all assignments of identifiers *)
(* to messages, some of which have vanished.                                  *)
EXTENDS Query
CONSTANTS Msgs,       \* number of messages
          Ids         \* identifiers
VARIABLES has,        \* message -> its identifiers
          live, base, todo
vars == <<has, live, base, todo>>
N == 1..Msgs

Init == /\ has \in [N -> SUBSET Ids] /\ live \in [N -> BOOLEAN]
        /\ base = [i \in N |-> i] /\ todo = Ids
RECURSIVE Find(_, _)
Find(b, i) == IF b[i] = i THEN i ELSE Find(b, b[i])
(* the messages of one identifier, in ascending order; nb is the base found so far *)
RECURSIVE Join(_, _, _, _)
Join(b, nb, i, id) ==
  IF i > Msgs THEN b
  ELSE IF ~live[i] \/ id \notin has[i] THEN Join(b, nb, i + 1, id)
  ELSE LET ob == Find(b, i) IN
       IF nb = 0 THEN Join(b, ob, i + 1, id)
       ELSE IF ob < nb THEN Join([b EXCEPT ![nb] = ob], ob, i + 1, id)
       ELSE IF ob > nb THEN Join([b EXCEPT ![ob] = nb], nb, i + 1, id)
       ELSE Join(b, nb, i + 1, id)
Take == \E id \in todo : base' = Join(base, 0, 1, id) /\ todo' = todo \ {id} /\ UNCHANGED <<has, live>>
Next == Take
Spec == Init /\ [][Next]_vars

RECURSIVE Flatten(_, _)
Flatten(b, i) == IF i > Msgs THEN b ELSE Flatten([b EXCEPT ![i] = b[b[i]]], i + 1)
RECURSIVE Number(_, _, _, _)
Number(b, t, i, next) ==
  IF i > Msgs THEN t
  ELSE IF ~live[i] THEN Number(b, t, i + 1, next)
  ELSE IF b[i] = i THEN Number(b, [t EXCEPT ![i] = next], i + 1, next + 1)
  ELSE Number(b, [t EXCEPT ![i] = t[b[i]]], i + 1, next)
Tid == Number(Flatten(base, 1), [i \in N |-> -1], 1, 0)

X == [i \in N |-> [ids |-> has[i], live |-> IF live[i] THEN 1 ELSE 0]]
Live == {i \in N : live[i]}
Rooted == \A i \in N : base[i] <= i
Correct == todo = {} =>
  LET t == TLCEval(Tid) IN
  /\ \A i \in Live : {j \in Live : t[j] = t[i]} = ThreadsOf(X, {i})
  /\ {t[i] : i \in Live} = 0..(Cardinality({t[i] : i \in Live}) - 1)
  /\ \A i \in Live : t[i] < Cardinality(Live)       \* so also after a purge
(* a thread search of a set is the union of the threads of its members *)
Additive == todo = Ids => \A i \in Live, j \in Live : ThreadsOf(X, {i, j}) = ThreadsOf(X, {i}) \cup ThreadsOf(X, {j})
=============================================================================
