----------------------------- MODULE IndexModel -----------------------------
(* The index as mairix stores it - numbered entries, some of them dead, and   *)
(* for every word the numbers of the entries it occurs in - and how an index  *)
(* run and a purge change it, against the index of module Mairix.  Two        *)
(* message files and an mbox of at most two messages; contents 1 and 2 have   *)
(* equal sizes, content 3 another one.                                        *)
(*                                                                            *)
(* StoredAgrees is C03, C04 and C05 for this instance.  Behaviours of this     *)
(* model (with hist) are replayed against the program.                        *)
EXTENDS Mairix, Json

CONSTANTS MaxEntries, Versions, Depth, FileIds, BoxIds

VARIABLES entries,   \* sequence of [id, k, v, live]: message k of file id (0: file-per-message); v is ghost
          post,      \* word -> numbers of entries
          boxes,     \* id of an mbox -> [mtime, size, msgs]
          files,     \* entry number -> [mtime, size] of file-per-message entries
          hist
mvars == <<store, index, entries, post, boxes, files, hist>>

PathOf(id) == CASE id = "a" -> <<47, 97>> [] id = "b" -> <<47, 98>> [] id = "m" -> <<47, 109>>
Times == 1..2
SizeOf(v) == IF v = 3 THEN 2 ELSE 1
WordOf(v) == <<96 + v>>
Common == <<122>>
AllWords == {WordOf(v) : v \in Versions} \cup {Common}
WordsOf(v) == {WordOf(v), Common}
Body(v) == <<WordOf(v) \o <<32>> \o Common>>
FileOf(id, v, mt) == [kind |-> "file", path |-> PathOf(id), mtime |-> mt, size |-> SizeOf(v), v |-> v, body |-> Body(v)]
RECURSIVE TotalSize(_)
TotalSize(q) == IF q = <<>> THEN 0 ELSE SizeOf(q[Len(q)]) + TotalSize(SubSeq(q, 1, Len(q) - 1))
StartOf(q, k) == TotalSize(SubSeq(q, 1, k - 1))
BoxOf(id, q, mt) ==
  [kind |-> "mbox", path |-> PathOf(id), mtime |-> mt, size |-> TotalSize(q), msgs |-> q,
   parts |-> [k \in 1..Len(q) |-> [s |-> StartOf(q, k), e |-> StartOf(q, k + 1), loose |-> 0, body |-> Body(q[k])]]]
BoxContents == {<<>>} \cup {<<v>> : v \in Versions} \cup {<<v, w>> : v \in Versions, w \in Versions}

Init == /\ store = NoFiles /\ index = NoFiles
        /\ entries = <<>> /\ post = [w \in AllWords |-> {}]
        /\ boxes = NoFiles /\ files = NoFiles /\ hist = <<>>

Act(a) == hist' = IF Depth > 0 THEN Append(hist, a) ELSE hist
Stored == <<entries, post, boxes, files>>

(***************************************************************************)
(* The user                                                                *)
(***************************************************************************)
WriteFile(id) == \E v \in Versions, mt \in Times :
  /\ Put(id, FileOf(id, v, mt)) /\ store' # store
  /\ UNCHANGED Stored /\ Act([op |-> "write", id |-> id, v |-> v, mt |-> mt])
Remove(id) ==
  /\ id \in DOMAIN store /\ Delete(id) /\ UNCHANGED Stored /\ Act([op |-> "remove", id |-> id])
WriteBox(id) == \E q \in BoxContents, mt \in Times :
  /\ Put(id, BoxOf(id, q, mt)) /\ store' # store
  /\ UNCHANGED Stored /\ Act([op |-> "box", id |-> id, q |-> q, mt |-> mt])

(***************************************************************************)
(* An index run on the stored form                                         *)
(***************************************************************************)
Prefix(old, new) ==       \* number of messages of an mbox still at their place
  LET n == Min2(Len(old), Len(new))
      K == {k \in 0..n : \A j \in 1..k : old[j] = new[j]}
  IN CHOOSE k \in K : \A j \in K : j <= k
Same(id) == boxes[id].mtime = store[id].mtime /\ boxes[id].size = store[id].size
Valid(id) == IF id \notin DOMAIN boxes \/ id \notin DOMAIN store THEN 0
             ELSE IF Same(id) THEN Len(boxes[id].msgs) ELSE Prefix(boxes[id].msgs, store[id].msgs)
StillThere(n, fast) ==
  LET x == entries[n] IN
  /\ x.live
  /\ IF x.k = 0 THEN /\ x.id \in DOMAIN store
                     /\ fast = 1 \/ (files[n].mtime = store[x.id].mtime /\ files[n].size = store[x.id].size)
     ELSE x.k <= Valid(x.id)
RECURSIVE Fresh(_, _)
Fresh(S, have) ==         \* new entries of the files S, those of have already being there
  IF S = {} THEN <<>>
  ELSE LET id == CHOOSE z \in S : TRUE
           more == IF store[id].kind = "file"
                   THEN IF <<id, 0>> \in have THEN <<>> ELSE <<[id |-> id, k |-> 0, v |-> store[id].v, live |-> TRUE]>>
                   ELSE LET q == store[id].msgs
                            o == IF id \in DOMAIN boxes /\ Same(id) THEN Len(q) ELSE Valid(id)
                        IN [j \in 1..(Len(q) - o) |-> [id |-> id, k |-> o + j, v |-> q[o + j], live |-> TRUE]]
       IN more \o Fresh(S \ {id}, have)
Updated(fast) ==
  LET kept == TLCEval([n \in 1..Len(entries) |-> [entries[n] EXCEPT !.live = StillThere(n, fast)]])
      have == {<<kept[n].id, kept[n].k>> : n \in {j \in 1..Len(kept) : kept[j].live}}
      new == TLCEval(Fresh(DOMAIN store, have))
      all == kept \o new
      N == Len(kept)
  IN [entries |-> all,
      post |-> [w \in DOMAIN post |-> post[w] \cup {N + j : j \in {i \in 1..Len(new) : w \in WordsOf(new[i].v)}}],
      files |-> [n \in 1..Len(all) |-> IF n <= N THEN files[n]
                   ELSE IF all[n].k = 0 THEN [mtime |-> store[all[n].id].mtime, size |-> store[all[n].id].size] ELSE [mtime |-> 0, size |-> 0]],
      boxes |-> [id \in {x \in DOMAIN store : store[x].kind = "mbox"} |->
                   IF id \in DOMAIN boxes /\ Same(id) THEN boxes[id]
                   ELSE [mtime |-> store[id].mtime, size |-> store[id].size, msgs |-> store[id].msgs]]]
(* A purge renumbers the live entries *)
Rank(u, n) == Cardinality({j \in 1..n : u.entries[j].live})
Purged(u) ==
  LET L == SelectSeq([n \in 1..Len(u.entries) |-> n], LAMBDA n : u.entries[n].live)
  IN [entries |-> [k \in 1..Len(L) |-> u.entries[L[k]]],
      post |-> [w \in DOMAIN u.post |-> {Rank(u, n) : n \in {j \in u.post[w] : u.entries[j].live}}],
      files |-> [k \in 1..Len(L) |-> u.files[L[k]]],
      boxes |-> u.boxes]
Become(u) == entries' = u.entries /\ post' = u.post /\ files' = u.files /\ boxes' = u.boxes
Index == \E fast \in 0..1 : IndexRun(fast) /\ Become(Updated(fast)) /\ Act([op |-> "index", fast |-> fast])
Purge == IndexRun(0) /\ Become(Purged(TLCEval(Updated(0)))) /\ Act([op |-> "purge"])

Next == \/ \E id \in FileIds : WriteFile(id) \/ Remove(id)
        \/ \E id \in BoxIds : WriteBox(id) \/ Remove(id)
        \/ Index \/ Purge
Spec == Init /\ [][Next]_mvars

(***************************************************************************)
(* What the stored form means is what module Mairix says                   *)
(***************************************************************************)
EntryName(n) ==              \* of an entry: file and byte range, as in the index of Mairix
  LET x == entries[n] IN
  IF x.k = 0 THEN <<x.id, -1, -1>>
  ELSE <<x.id, StartOf(boxes[x.id].msgs, x.k), StartOf(boxes[x.id].msgs, x.k + 1)>>
Live == {n \in 1..Len(entries) : entries[n].live}
Found(w) == {EntryName(n) : n \in post[w] \cap Live}
StoredAgrees ==
  LET F == Flat(index) IN
  /\ {EntryName(n) : n \in Live} = {F[i].id : i \in 1..Len(F)}
  /\ Cardinality(Live) = Len(F)
  /\ \A w \in DOMAIN post : Found(w) = {F[i].id : i \in {j \in 1..Len(F) : w \in F[j].x.b}}
InRange == \A w \in DOMAIN post : post[w] \subseteq 1..Len(entries)
(* searching the index through Query gives the same *)
Key == <<98, 58>>
SearchAgrees == \A w \in AllWords : Found(w) = AnswerSets(<<Key \o w>>, 0, [y |-> 2020, m |-> 1, d |-> 1]).must
NothingDead == [][Purge => Len(entries') = Len(Flat(index'))]_mvars
(* indexing anew gives the same index, unless a file changed keeping its time and size or the run was a fast one *)
Bounded == Len(entries) <= MaxEntries
View == <<store, index, entries, post, boxes, files>>

(* behaviours for replay: changes and runs in turn *)
Changes == \/ \E id \in FileIds : WriteFile(id) \/ Remove(id)
           \/ \E id \in BoxIds : WriteBox(id) \/ Remove(id)
RunActs == Index \/ Purge
End == /\ PrintT("@@HIST " \o ToJson(hist))
       /\ hist' = Append(hist, [op |-> "end"]) /\ UNCHANGED <<store, index, Stored>>
SimNext == IF Len(hist) = Depth THEN End
           ELSE Len(hist) < Depth /\ IF Len(hist) % 5 \in {1, 4} THEN RunActs ELSE Changes
SimSpec == Init /\ [][SimNext]_mvars
=============================================================================
