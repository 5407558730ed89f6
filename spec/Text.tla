-------------------------------- MODULE Text --------------------------------
(* Texts are sequences of byte values.  Words of a text, as mairix's users    *)
(* see them: maximal runs of letters, digits and underscores, compared        *)
(* without regard to case; in address fields the whole address as well.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL INSTANCE SequencesExt

Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
LowerS(s) == TLCEval([i \in 1..Len(s) |-> Lower(s[i])])
IsDigit(c) == c \in 48..57
IsAlnum(c) == c \in 48..57 \/ c \in 65..90 \/ c \in 97..122
WordChars == (48..57) \cup (65..90) \cup (97..122) \cup {95}
AddrChars == WordChars \cup {43, 45, 46, 64}
IsSpace(c) == c = 32 \/ c \in 9..13

(* p occurs in s at position i *)
At(s, p, i) == /\ i + Len(p) - 1 <= Len(s)
               /\ \A k \in 1..Len(p) : s[i + k - 1] = p[k]
HasSub(s, p) == \E i \in 1..(Len(s) - Len(p) + 1) : At(s, p, i)
StartsWith(s, p) == At(s, p, 1)
EndsWith(s, p) == Len(p) <= Len(s) /\ At(s, p, Len(s) - Len(p) + 1)

(* First position from i on with a byte in, or not in, a set; 0 if there is none *)
NextIn(s, i, C) == IF i > Len(s) THEN 0 ELSE SelectInSubSeq(s, i, Len(s), LAMBDA c : c \in C)
NextNotIn(s, i, C) == IF i > Len(s) THEN 0 ELSE SelectInSubSeq(s, i, Len(s), LAMBDA c : c \notin C)

(* Maximal runs of characters of a class *)
RunStarts(t, C) == {i \in 1..Len(t) : t[i] \in C /\ (i = 1 \/ t[i - 1] \notin C)}
RunEnd(t, i, C) == LET k == NextNotIn(t, i, C) IN IF k = 0 THEN Len(t) ELSE k - 1
Runs(t, C) == {LowerS(SubSeq(t, i, RunEnd(t, i, C))) : i \in RunStarts(t, C)}

Words(t) == Runs(t, WordChars)
AddrWords(t) == Runs(t, WordChars) \cup Runs(t, AddrChars)

(* Split at every occurrence of a separator byte: the sequence of pieces *)
RECURSIVE SplitFrom(_, _, _)
SplitFrom(s, sep, i) ==
  LET j == NextIn(s, i, {sep}) IN
  IF j = 0 THEN <<SubSeq(s, i, Len(s))>> ELSE <<SubSeq(s, i, j - 1)>> \o SplitFrom(s, sep, j + 1)
Split(s, sep) == SplitFrom(s, sep, 1)

DropSpaces(s) == SelectSeq(s, LAMBDA c : ~IsSpace(c))

RECURSIVE NumFrom(_, _, _)
NumFrom(s, i, acc) == IF i <= Len(s) /\ IsDigit(s[i]) THEN NumFrom(s, i + 1, acc * 10 + (s[i] - 48)) ELSE acc
Num(s) == NumFrom(s, 1, 0)       \* leading decimal digits, 0 if none

(***************************************************************************)
(* Approximate containment: some stretch of w can be turned into p by at   *)
(* most n insertions, deletions and replacements.  Row k holds, after      *)
(* reading a prefix of w, the least cost of matching p[1..k] against some  *)
(* stretch ending there (against a prefix, if anchored).                   *)
(***************************************************************************)
Min2(a, b) == IF a < b THEN a ELSE b
NextRow(p, c, old, z) ==        \* row[k + 1] is the cost for p[1..k]; z the cost of the empty prefix
  FoldLeft(LAMBDA acc, k : Append(acc, Min2(Min2(old[k] + (IF p[k] = c THEN 0 ELSE 1), old[k + 1] + 1), acc[k] + 1)),
           <<z>>, [k \in 1..Len(p) |-> k])
Approx(w, p, n, anchored) ==
  LET m == Len(p) + 1
      Read(acc, c) ==
        IF acc[m] <= n THEN acc
        ELSE NextRow(p, c, acc, IF anchored THEN acc[1] + 1 ELSE 0)
  IN FoldLeft(Read, [k \in 1..m |-> k - 1], w)[m] <= n
=============================================================================
