------------------------------ MODULE Folders -------------------------------
(* Which folders the configuration selects, and which files of them are       *)
(* messages.  The user's files are a set of nodes                             *)
(*   [p |-> path, up |-> path of the directory it is in, n |-> its name,      *)
(*    d |-> 1 for a directory, link |-> 1 if it is a symbolic link,           *)
(*    k |-> number of mbox messages in it]                                    *)
(* where links are resolved (a node below a link to a directory is listed     *)
(* under the path through the link).                                          *)
EXTENDS Text

VARIABLES tree, conf, indexed

RangeOf(s) == {s[i] : i \in 1..Len(s)}
SLASH == 47
Dots3 == <<46, 46, 46>>
LastSlash(s) == LET S == {i \in 1..Len(s) : s[i] = SLASH} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i >= j

(***************************************************************************)
(* Colon-separated lists; \: is a colon of a name                           *)
(***************************************************************************)
RECURSIVE ListFrom(_, _)
ListFrom(s, i) ==       \* i: where to look for the next separator
  LET j == NextIn(s, i, {58}) IN
  IF j = 0 THEN <<s>>
  ELSE IF j > 1 /\ s[j - 1] = 92 THEN ListFrom(s, j + 1)
  ELSE <<SubSeq(s, 1, j - 1)>> \o (IF j = Len(s) THEN <<>> ELSE ListFrom(SubSeq(s, j + 1, Len(s)), 1))
Unescape(s) == LET keep == {i \in 1..Len(s) : ~(s[i] = 92 /\ i < Len(s) /\ s[i + 1] = 58)}
               IN LET idx == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : i \in keep) IN [i \in 1..Len(idx) |-> s[idx[i]]]
Entries(lines) ==       \* several lines of one setting accumulate
  LET all == TLCEval([k \in 1..Len(lines) |-> LET L == ListFrom(lines[k], 1) IN [i \in 1..Len(L) |-> Unescape(L[i])]])
      F[k \in 0..Len(lines)] == IF k = 0 THEN <<>> ELSE F[k - 1] \o all[k]
  IN F[Len(lines)]

(***************************************************************************)
(* Wildcards: * any characters but '/', ** any characters, ? one character, *)
(* [...] one of the class.  Whether ? stands for a '/' is left open (qs).   *)
(***************************************************************************)
RECURSIVE ClassSet(_, _)
ClassSet(b, i) ==
  IF i > Len(b) THEN {}
  ELSE IF i + 2 <= Len(b) /\ b[i + 1] = 45
       THEN (IF b[i] <= b[i + 2] THEN b[i]..b[i + 2] ELSE b[i + 2]..b[i]) \cup ClassSet(b, i + 3)
       ELSE {b[i]} \cup ClassSet(b, i + 1)
RECURSIVE Toks(_, _, _)
Toks(p, i, qs) ==
  IF i > Len(p) THEN <<>>
  ELSE IF p[i] = 42 THEN (IF i < Len(p) /\ p[i + 1] = 42 THEN <<[t |-> "deep", S |-> {}]>> \o Toks(p, i + 2, qs)
                          ELSE <<[t |-> "star", S |-> {}]>> \o Toks(p, i + 1, qs))
  ELSE IF p[i] = 63 THEN <<[t |-> "one", S |-> (1..255) \ (IF qs THEN {} ELSE {SLASH})]>> \o Toks(p, i + 1, qs)
  ELSE IF p[i] = 91 THEN LET j == NextIn(p, i + 2, {93}) IN
                         <<[t |-> "one", S |-> ClassSet(SubSeq(p, i + 1, j - 1), 1)]>> \o Toks(p, j + 1, qs)
  ELSE <<[t |-> "one", S |-> {p[i]}]>> \o Toks(p, i + 1, qs)

GlobMatch(toks, s) ==
  LET After(P, k) ==    \* positions reached in s after the k-th token from the positions P
        LET x == toks[k] IN
        IF P = {} THEN {}
        ELSE IF x.t = "one" THEN {j + 1 : j \in {i \in P : i < Len(s) /\ s[i + 1] \in x.S}}
        ELSE IF x.t = "deep" THEN {j \in 0..Len(s) : \E i \in P : i <= j}
        ELSE {j \in 0..Len(s) : \E i \in P : i <= j /\ \A m \in (i + 1)..j : s[m] # SLASH}
      F[k \in 0..Len(toks)] == IF k = 0 THEN {0} ELSE After(F[k - 1], k)
  IN Len(s) \in F[Len(toks)]
Glob(p, s, qs) == GlobMatch(Toks(p, 1, qs), s)
IsWild(s) == \E i \in 1..Len(s) : s[i] \in {42, 63, 91}

(***************************************************************************)
(* Folders                                                                 *)
(***************************************************************************)
New == <<110, 101, 119>>
Cur == <<99, 117, 114>>
Tmp == <<116, 109, 112>>
MhMarks == {                                     \* files that mark an MH folder
  <<46, 120, 109, 104, 99, 97, 99, 104, 101>>,                                         \* .xmhcache
  <<46, 109, 104, 95, 115, 101, 113, 117, 101, 110, 99, 101, 115>>,                    \* .mh_sequences
  <<46, 115, 121, 108, 112, 104, 101, 101, 100, 95, 99, 97, 99, 104, 101>>,            \* .sylpheed_cache
  <<46, 115, 121, 108, 112, 104, 101, 101, 100, 95, 109, 97, 114, 107>>,               \* .sylpheed_mark
  <<46, 99, 108, 97, 119, 115, 95, 99, 97, 99, 104, 101>>,                             \* .claws_cache
  <<46, 99, 108, 97, 119, 115, 95, 109, 97, 114, 107>>,                                \* .claws_mark
  <<46, 109, 97, 114, 107, 115>>,                                                      \* .marks
  <<46, 111, 118, 101, 114, 118, 105, 101, 119>>,                                      \* .overview
  <<99, 109, 101, 116, 97>>,                                                           \* cmeta
  <<115, 117, 109, 109, 97, 114, 121>>,                                                \* summary
  <<46, 109, 101, 119, 45, 115, 117, 109, 109, 97, 114, 121>>,                         \* .mew-summary
  <<105, 110, 100, 101, 120>>}                                                         \* index

Children(p) == {x \in tree : x.up = p}
Sub(p, n) == p \o <<SLASH>> \o n
IsFolder(kind, x) ==
  CASE kind = "maildir" -> x.d = 1 /\ \A n \in {New, Cur, Tmp} : \E y \in Children(x.p) : y.n = n /\ y.d = 1
    [] kind = "mh" -> x.d = 1 /\ \E y \in Children(x.p) : y.d = 0 /\ y.n \in MhMarks
    [] kind = "mbox" -> x.d = 0 /\ (x.link = 0 \/ conf.follow = 1)

MhName(n) == LET m == IF n # <<>> /\ n[Len(n)] = 46 /\ Len(n) > 1 THEN SubSeq(n, 1, Len(n) - 1) ELSE n
             IN m # <<>> /\ \A i \in 1..Len(m) : IsDigit(m[i])
(* the messages of a folder: <<path, number of messages in that file>> *)
Messages(kind, x) ==
  CASE kind = "maildir" -> {<<y.p, 1>> : y \in {z \in tree : z.d = 0 /\ z.up \in {Sub(x.p, New), Sub(x.p, Cur)}}}
    [] kind = "mh" -> {<<y.p, 1>> : y \in {z \in Children(x.p) : z.d = 0 /\ MhName(z.n)}}
    [] kind = "mbox" -> IF x.k = 0 THEN {} ELSE {<<x.p, x.k>>}

Below(x, p) == x.p = p \/ (Len(x.p) > Len(p) /\ x.p[Len(p) + 1] = SLASH /\ StartsWith(x.p, p))

(* the folders an entry of a setting names, before omissions *)
Named(e, kind) ==
  LET abs == e # <<>> /\ e[1] = SLASH
      full == IF abs THEN e ELSE Sub(conf.base, e)
      deep == EndsWith(full, Dots3) /\ Len(full) > 3
      f0 == IF deep THEN SubSeq(full, 1, Len(full) - 3) ELSE full
      f == IF Len(f0) > 1 /\ f0[Len(f0)] = SLASH THEN SubSeq(f0, 1, Len(f0) - 1) ELSE f0
      c == LastSlash(f)
      last == SubSeq(f, c + 1, Len(f))
      from == IF IsWild(last) /\ f = f0
              THEN LET tk == Toks(last, 1, FALSE) IN {x \in tree : x.up = SubSeq(f, 1, c - 1) /\ GlobMatch(tk, x.n)}
              ELSE {x \in tree : x.p = f /\ (f = f0 \/ x.d = 1)}
      S == IF deep THEN {x \in tree : \E y \in from : Below(x, y.p)} ELSE from
  IN {x \in S : IsFolder(kind, x)}
OmitName(e, x) ==       \* the name omit patterns are compared with
  IF e # <<>> /\ e[1] = SLASH THEN x.p
  ELSE IF Len(x.p) <= Len(conf.base) THEN <<>> ELSE SubSeq(x.p, Len(conf.base) + 2, Len(x.p))

Kinds == {"maildir", "mh", "mbox"}
(* qs: how ? in omit patterns is read *)
Omits(qs) == LET E == Entries(conf.omit) IN [i \in 1..Len(E) |-> Toks(E[i], 1, qs)]
SelectedBy(e, kind, om) == {x \in Named(e, kind) : ~\E i \in 1..Len(om) : GlobMatch(om[i], OmitName(e, x))}
Lists == TLCEval([kind \in Kinds |-> Entries(conf[kind])])
SelectedMsgs(L, qs) ==
  LET om == TLCEval(Omits(qs))
  IN UNION {UNION {UNION {Messages(kind, x) : x \in SelectedBy(L[kind][i], kind, om)} : i \in 1..Len(L[kind])} : kind \in Kinds}
(* a folder two entries select: the run may be refused *)
Overlap(L) == \E kind \in Kinds : \E i, j \in 1..Len(L[kind]) : i < j /\ Named(L[kind][i], kind) \cap Named(L[kind][j], kind) # {}

(***************************************************************************)
(* Transitions                                                             *)
(***************************************************************************)
FolderInit == tree = {} /\ conf = [base |-> <<>>] /\ indexed = [must |-> {}, may |-> {}]
Change(nodes) == tree' = RangeOf(nodes) /\ UNCHANGED <<conf, indexed>>
Configure(c) == conf' = c /\ UNCHANGED <<tree, indexed>>
IndexFolders(rc) ==
  /\ indexed' = IF rc = 0 THEN LET L == Lists IN TLCEval([must |-> SelectedMsgs(L, TRUE), may |-> SelectedMsgs(L, FALSE)]) ELSE indexed
  /\ UNCHANGED <<tree, conf>>
IndexAllowed(rc) == rc = 0 \/ Overlap(Lists)
(* a search that every message matches: res is the sequence of paths *)
AllAllowed(rc, res) ==
  LET got == RangeOf(res) IN
  /\ rc \in {0, 1, 3}
  /\ \A m \in indexed.must : m[1] \in got
  /\ \A p \in got : \E m \in indexed.may : m[1] = p
  /\ \A p \in got : Cardinality({i \in 1..Len(res) : res[i] = p}) \in {m[2] : m \in {x \in indexed.may : x[1] = p}}
=============================================================================
