------------------------------- MODULE Scale --------------------------------
(* Large stores, seen only as: which messages are there, and which words      *)
(* each has.  Messages are numbers; a word w occurs in message i iff i is in   *)
(* one of its progressions <<m, r, lo, hi>> (lo <= i <= hi, i % m = r).  The   *)
(* meaning of the stored index is the same whatever the numbers are.          *)
EXTENDS Text

VARIABLES live,      \* messages in the store: [files, mboxes, imap]
          idx        \* messages in the index

scvars == <<live, idx>>
Covers(k, i) == i >= k[3] /\ i <= k[4] /\ i % k[1] = k[2]
Occurs(w, i) == \E j \in 1..Len(w.k) : Covers(w.k[j], i)

ScaleInit == live = [files |-> {}, mboxes |-> {}, imap |-> {}] /\ idx = {}
Added(kind, a, b) == live' = [live EXCEPT ![kind] = @ \cup (a..b)] /\ UNCHANGED idx
Removed(k) == live' = [live EXCEPT !.files = {i \in @ : ~Covers(k, i)}, !.imap = {i \in @ : ~Covers(k, i)}] /\ UNCHANGED idx
Emptied == live' = [live EXCEPT !.mboxes = {}] /\ UNCHANGED idx
IndexAll == idx' = live.files \cup live.mboxes \cup live.imap /\ UNCHANGED live

(* A query: a sequence of conditions, each a sequence of alternatives           *)
(* [f |-> field, p |-> text, sub |-> 0 or 1, neg |-> 0 or 1]: a message that    *)
(* has, or has not, in that field a word that is, or contains, the text         *)
Meant(words, alt) == {j \in 1..Len(words) : words[j].f = alt.f /\ (IF alt.sub = 1 THEN HasSub(words[j].b, alt.p) ELSE words[j].b = alt.p)}
Having(words, alt) == LET M == TLCEval(Meant(words, alt)) IN {i \in idx : (\E j \in M : Occurs(words[j], i)) # (alt.neg = 1)}
RECURSIVE AnyOf(_, _, _)
AnyOf(words, alts, n) == IF n = 0 THEN {} ELSE Having(words, alts[n]) \cup AnyOf(words, alts, n - 1)
RECURSIVE AllOf(_, _, _)
AllOf(words, q, n) == IF n = 0 THEN idx ELSE TLCEval(AnyOf(words, q[n], Len(q[n])) \cap AllOf(words, q, n - 1))
Answer(words, q) == AllOf(words, q, Len(q))
(* every message refers to the identifier of its block of T messages *)
Threads(S, T) == LET B == TLCEval({i \div T : i \in S}) IN {i \in idx : (i \div T) \in B}
=============================================================================
