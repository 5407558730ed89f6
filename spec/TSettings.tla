----------------------------- MODULE TSettings ------------------------------
(* Validation of recorded runs with settings from rc files, environment and   *)
(* command line.  The first event gives the user's files:                      *)
(*   tree  nodes (as in Folders, with w: subject word, th: thread, day)        *)
(*   run   files, env, args, home, cwd; rc; res: paths printed;                *)
(*         made: the files that were created, [p, up, d, link, src], in order  *)
(*         of their names; src is the path of the file a message is from, for  *)
(*         an mbox the sequence of these                                       *)
EXTENDS Settings, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, dbs        \* dbs: database -> the messages in it, <<path, number>>
Events == Traces[t].ev

Init == t \in 1..Len(Traces) /\ l = 1 /\ FolderInit /\ dbs = [x \in {} |-> {}]

Selected(d) ==      \* conf is taken from the settings
  LET s == d.s
      c == [base |-> Norm(s.base.v), maildir |-> s.maildir, mh |-> s.mh, mbox |-> s.mbox, omit |-> s.omit, follow |-> s.follow]
  IN c
Node(p) == CHOOSE x \in tree : x.p = p
Matches(d) ==       \* the last argument is a word, ~word, or absent
  LET all == dbs[d.db]
      q == d.o.rest
      neg == q # <<>> /\ q[1] # <<>> /\ q[1][1] = 126
      w == IF q = <<>> THEN <<>> ELSE IF neg THEN SubSeq(q[1], 2, Len(q[1])) ELSE q[1]
      hit == IF q = <<>> THEN all ELSE {m \in all : (Node(m[1]).w = w) # neg}
  IN IF d.o.threads THEN {m \in all : \E h \in hit : Node(h[1]).th = Node(m[1]).th} ELSE hit
Total(M) == LET RECURSIVE Sum(_)
                Sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN x[2] + Sum(S \ {x})
            IN Sum(M)
Exactly(M, seq) ==      \* seq lists the files of the messages M
  /\ Len(seq) = Total(M)
  /\ \A m \in M : Cardinality({i \in 1..Len(seq) : seq[i] = m[1]}) = m[2]
InOrder(d, seq) == ~d.s.sorted \/ \A i \in 1..(Len(seq) - 1) : Node(seq[i]).day <= Node(seq[i + 1]).day
Linked(d, x) == x.link = (IF d.o.hard \/ Node(x.src[1]).k # 0 THEN 0 ELSE 1)
FolderHolds(d, made, M) ==
  LET subs == {Sub(d.out, New), Sub(d.out, Cur)}
      In(x) == CASE d.s.fmt = "maildir" -> x.d = 0 /\ x.up \in subs
                 [] d.s.fmt = "mh" -> x.d = 0 /\ x.up = d.out
                 [] d.s.fmt = "mbox" -> x.d = 0 /\ x.p = d.out
      Dirs == CASE d.s.fmt = "maildir" -> {d.out, Sub(d.out, Tmp)} \cup subs
                [] d.s.fmt = "mh" -> {d.out}
                [] d.s.fmt = "mbox" -> {}
      items == SelectSeq(made, LAMBDA x : In(x))
      srcs == IF d.s.fmt = "mbox" THEN (IF items = <<>> THEN <<>> ELSE items[1].src) ELSE [i \in 1..Len(items) |-> items[i].src[1]]
  IN /\ \A i \in 1..Len(made) : In(made[i]) \/ (made[i].d = 1 /\ made[i].p \in Dirs)
     /\ \A i \in 1..Len(items) : d.s.fmt = "mbox" \/ Linked(d, items[i])
     /\ Exactly(M, srcs)
     /\ d.s.fmt \in {"mh", "mbox"} => InOrder(d, srcs)

(* a match folder can only be made in a directory that is there *)
HasPlace(d) == d.s.fmt \in {"raw", "excerpt"} \/ InDir(d.out)

Accept(e, d) ==
  CASE d.do = "error" -> e.rc \in 1..99 /\ e.made = <<>> /\ e.res = <<>>
    [] d.do = "info" -> e.rc = 0 /\ e.made = <<>> /\ e.res = <<>>
    [] d.do = "dump" -> e.rc = 0 /\ e.made = <<>>
    [] d.do = "index" -> /\ e.rc = 0 /\ e.res = <<>>
                         /\ \A i \in 1..Len(e.made) : e.made[i].p = d.db
                         /\ (e.made # <<>>) = (d.db \notin DOMAIN dbs /\ SelectedMsgs(Lists, FALSE) # {})
    [] d.do = "search" -> LET M == Matches(d) IN
                          IF ~HasPlace(d) THEN e.rc \in 1..99 /\ e.made = <<>> /\ e.res = <<>> ELSE
                          /\ e.rc = (IF M = {} THEN 1 ELSE 0)
                          /\ IF d.s.fmt \in {"raw", "excerpt"} THEN e.made = <<>> /\ Exactly(M, e.res) /\ InOrder(d, e.res)
                             ELSE e.res = <<>> /\ FolderHolds(d, e.made, M)

(* The settings of a run are set first, so that Folders' definitions speak of them *)
Prepare1(e) == LET d == TLCEval(Doing(e, DOMAIN dbs)) IN
  /\ conf' = IF d.do = "index" THEN Selected(d) ELSE conf
  /\ UNCHANGED <<t, tree, indexed, dbs>>
Report(e, d) == PrintT("@@MISMATCH " \o ToJson([t |-> t, l |-> l, event |-> e, todo |-> d, dbs |-> DOMAIN dbs]))

(* Event l is handled in two steps: 2l-1 settings, 2l outcome *)
Next ==
  \/ /\ l > 0 /\ l <= 2 * Len(Events) /\ l % 2 = 1
     /\ l' = l + 1
     /\ LET e == Events[(l + 1) \div 2] IN
        IF e.op = "tree" THEN Change(e.nodes) /\ UNCHANGED <<t, dbs>> ELSE Prepare1(e)
  \/ /\ l > 0 /\ l <= 2 * Len(Events) /\ l % 2 = 0
     /\ LET e == Events[l \div 2] IN
        IF e.op = "tree" THEN l' = l + 1 /\ UNCHANGED <<t, tree, conf, indexed, dbs>>
        ELSE LET d == TLCEval(Doing(e, DOMAIN dbs)) IN
             IF Accept(e, d) \/ (Report(e, d) /\ FALSE)
             THEN /\ l' = l + 1
                  /\ dbs' = IF d.do = "index"
                            THEN LET M == TLCEval(SelectedMsgs(Lists, FALSE))
                                 IN IF M = {} /\ d.db \notin DOMAIN dbs THEN dbs
                                    ELSE [x \in DOMAIN dbs \cup {d.db} |-> IF x = d.db THEN M ELSE dbs[x]]
                            ELSE dbs
                  /\ UNCHANGED <<t, tree, conf, indexed>>
             ELSE l' = -1 /\ UNCHANGED <<t, tree, conf, indexed, dbs>>
  \/ /\ l = 2 * Len(Events) + 1
     /\ PrintT("@@END " \o ToJson(t))
     /\ l' = -2 /\ UNCHANGED <<t, tree, conf, indexed, dbs>>
View == <<t, l>>
=============================================================================
