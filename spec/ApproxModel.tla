---------------------------- MODULE ApproxModel -----------------------------
(* The automaton mairix runs over a word to find a pattern with errors, as    *)
(* sets instead of bit vectors: r[d] holds the k such that the first k bytes   *)
(* of the pattern have been matched, by a stretch of the word ending here,     *)
(* with at most d errors.  Against Text!Approx, for all patterns and words up  *)
(* to the given lengths.                                                      *)
EXTENDS Text
CONSTANTS Alphabet, MaxPattern, MaxWord, MaxErrors
VARIABLES p, n, anch, w, r, hit
vars == <<p, n, anch, w, r, hit>>

Init == /\ p \in UNION {[1..k -> Alphabet] : k \in 1..MaxPattern}
        /\ n \in 0..MaxErrors /\ anch \in BOOLEAN
        /\ w = <<>> /\ hit = FALSE
        /\ r = [d \in 0..n |-> 1..Min2(d, Len(p))]
Shift(S) == {1} \cup {k + 1 : k \in {j \in S : j < Len(p)}}
Matched(S, c) == {k \in Shift(S) : p[k] = c /\ ~(anch /\ k = 1 /\ w # <<>>)}
RECURSIVE Level(_, _)
Level(d, c) == IF d = 0 THEN Matched(r[0], c)
               ELSE Matched(r[d], c) \cup Shift(r[d - 1] \cup Level(d - 1, c)) \cup r[d - 1]
Read(c) == LET nr == TLCEval([d \in 0..n |-> Level(d, c)])
           IN /\ w' = Append(w, c) /\ r' = nr
              /\ hit' = (hit \/ \E d \in 0..n : Len(p) \in nr[d])
              /\ UNCHANGED <<p, n, anch>>
Next == Len(w) < MaxWord /\ \E c \in Alphabet : Read(c)
Spec == Init /\ [][Next]_vars

(* a word is found iff some stretch of it is within n errors of the pattern *)
Correct == ~anch /\ w # <<>> => (hit <=> Approx(w, p, n, FALSE))
Exact == ~anch /\ n = 0 /\ w # <<>> => (hit <=> HasSub(w, p))
(* with an anchor: a word that begins with the pattern is found, and nothing that would not be found without it *)
Anchored == anch => /\ (w # <<>> /\ StartsWith(w, p) => hit)
                    /\ (hit => Approx(w, p, n, FALSE))
                    /\ (n = 0 /\ hit => StartsWith(w, p))
=============================================================================
