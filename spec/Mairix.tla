------------------------------- MODULE Mairix -------------------------------
(* The system: a mail store that users change, an index over it, index runs   *)
(* and searches.                                                              *)
(*                                                                            *)
(*   store : identifier -> [kind, path, raw or texts, mtime, size]            *)
(*   index : identifier -> [mtime, size, items], what the index holds for the *)
(*           files of the store as of the index run that last looked at them: *)
(*           items is the sequence of messages of that file, each with the    *)
(*           byte range it has (mbox) or <<-1, -1>>, and its searchable record *)
(*                                                                            *)
(* A file with damaged content (damaged = 1) has parts instead: what of it is *)
(* known to be intact.  A part is a whole message, or (loose) the intact texts *)
(* of a message that may be found by other words too; in a damaged mbox there *)
(* may be further messages of which nothing is said.                          *)
EXTENDS Message, Mbox

VARIABLES store, index

Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
NoFiles == [x \in {} |-> 0]

(* Messages of one file of the store *)
Items(f) ==
  IF "parts" \in DOMAIN f
  THEN TLCEval([k \in 1..Len(f.parts) |->
         [s |-> f.parts[k].s, e |-> f.parts[k].e, loose |-> f.parts[k].loose,
          x |-> Content(With(f.parts[k], "path", f.path))]])
  ELSE IF f.kind = "mbox" /\ "raw" \in DOMAIN f
  THEN LET rs == MboxRanges(f.raw)
       IN TLCEval([k \in 1..Len(rs) |->
             [s |-> rs[k].s - 1, e |-> rs[k].e, loose |-> 0,
              x |-> Content([path |-> f.path, kind |-> "mbox", raw |-> SubSeq(f.raw, rs[k].s, rs[k].e)])]])
  ELSE <<[s |-> -1, e |-> -1, loose |-> 0, x |-> Content(f)]>>

(***************************************************************************)
(* Changes by users and mail programs                                      *)
(***************************************************************************)
Put(id, f) == store' = With(store, id, f) /\ UNCHANGED index
Delete(id) == store' = Without(store, id) /\ UNCHANGED index
Move(id, to, path) ==
  store' = With(Without(store, id), to, [store[id] EXCEPT !.path = path]) /\ UNCHANGED index

(***************************************************************************)
(* An index run: what is gone is forgotten, what is unchanged kept, what is *)
(* new or changed scanned.  A fast run does not look whether a file-per-    *)
(* message file already indexed has changed.  What could not be read is     *)
(* looked at again.                                                        *)
(***************************************************************************)
Keep(id, fast) ==
  /\ id \in DOMAIN index
  /\ index[id].path = store[id].path
  /\ \/ /\ index[id].mtime = store[id].mtime /\ index[id].size = store[id].size
        /\ index[id].unread = 0
     \/ fast = 1 /\ store[id].kind = "file"
Indexed(fast) ==
  [id \in DOMAIN store |->
     IF Keep(id, fast) THEN index[id]
     ELSE [path |-> store[id].path, mtime |-> store[id].mtime, size |-> store[id].size,
           unread |-> Attr(store[id], "unread", 0), damaged |-> Attr(store[id], "damaged", 0), items |-> Items(store[id])]]
IndexRun(fast) == index' = TLCEval(Indexed(fast)) /\ UNCHANGED store
(* A run while which the file id is removed: what the index then holds of that *)
(* file is not said.                                                          *)
VanishRun(id) ==
  /\ store' = Without(store, id)
  /\ index' = TLCEval(With(Indexed(0), id,
       [path |-> store[id].path, mtime |-> 0, size |-> 0, unread |-> 1, damaged |-> 1,
        items |-> IF store[id].kind = "mbox" THEN <<>>
                  ELSE <<[s |-> -1, e |-> -1, loose |-> 1, x |-> Content([path |-> store[id].path])]>>]))

(***************************************************************************)
(* Searches                                                                *)
(***************************************************************************)
RECURSIVE FlatFrom(_, _)
FlatFrom(ix, S) ==
  IF S = {} THEN <<>>
  ELSE LET id == CHOOSE z \in S : TRUE
           its == ix[id].items
       IN [k \in 1..Len(its) |-> [id |-> <<id, its[k].s, its[k].e>>, x |-> its[k].x, loose |-> its[k].loose]] \o FlatFrom(ix, S \ {id})
Flat(ix) == FlatFrom(ix, DOMAIN ix)

(* Arguments a search must refuse: patterns longer than the matcher supports *)
Refused(args) ==
  \E k \in 1..Len(args) :
    LET a == ParseArg(args[k]) IN
    a.kind = "words" /\ \E i \in 1..Len(a.alts) : \E j \in 1..Len(a.alts[i]) :
      LET c == a.alts[i][j] IN
      (c.sub \/ "p" \in a.fields) /\ (Len(c.word) > 31 \/ c.word = <<>>)

AnswerSets(args, thr, today) ==
  LET F == TLCEval(Flat(index))
      X == TLCEval([i \in 1..Len(F) |-> F[i].x])
      DH(d, s) == DateHolds(d, s, today)
      Ids(S) == {F[i].id : i \in S}
      Loose == {i \in 1..Len(F) : F[i].loose = 1}
  IN [must |-> Ids(Answer(X, args, thr, FALSE, DH)), may |-> Ids(Answer(X, args, thr, TRUE, DH) \cup Loose),
      exact |-> Ids({i \in 1..Len(F) : F[i].loose = 0})]
(* A result from the damaged rest of a file *)
FromDamage(r, a) == r \notin a.exact /\ r[1] \in DOMAIN index /\ index[r[1]].damaged = 1
=============================================================================
