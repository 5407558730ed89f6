----------------------------- MODULE QueryModel -----------------------------
(* Query expressions built piece by piece: arguments, alternatives ('/'),      *)
(* conjunctions (','), conditions, over a store that has every combination of  *)
(* the words in question.  The laws a user reasons with are checked on         *)
(* Query!Answer for every expression; every expression is replayed against     *)
(* the program.                                                               *)
EXTENDS Query, Json
CONSTANTS MaxConds, Conds, Keys

VARIABLES args,       \* arguments completed
          cur,        \* the argument being written: [key, alts: sequence of sequences of conditions]
          n,          \* conditions so far
          done
vars == <<args, cur, n, done>>

a == 97
b == 98
QConds == {<<a, a>>, <<Tilde, a, b>>, <<a, Equals>>, <<Tilde, a, a>>}
QCondsMore == QConds \cup {<<a, b>>, <<Tilde, b, Equals>>}
QKeys == {<<>>, <<LetterS, Colon>>}
QKeysMore == QKeys \cup {<<LetterB, Colon>>}
NotDate(d, s) == FALSE
Text0(has) == [to |-> <<>>, cc |-> <<>>, from |-> <<>>, subj |-> <<>>, body |-> <<>>, att |-> <<>>, mid |-> <<>>, refs |-> <<>>,
               path |-> <<>>, seen |-> 0, replied |-> 0, flagged |-> 0, size |-> 0, day |-> 0, live |-> 1]
(* messages with every combination of "aa" and "ab" in subject and body *)
W(k) == IF k = 0 THEN <<>> ELSE IF k = 1 THEN <<<<a, a>>>> ELSE IF k = 2 THEN <<<<a, b>>>> ELSE <<<<a, a, 32, a, b>>>>
M(k) == [Text0(k) EXCEPT !.subj = W(k % 4), !.body = W(k \div 4)]
X == TLCEval([k \in 1..16 |-> Prepare(M(k - 1))])
All == 1..16

RECURSIVE JoinWith(_, _, _)
JoinWith(q, sep, i) == IF i > Len(q) THEN <<>> ELSE (IF i = 1 THEN <<>> ELSE <<sep>>) \o q[i] \o JoinWith(q, sep, i + 1)
Alt(q) == JoinWith(q, Comma, 1)
ArgText(x) == x.key \o JoinWith([i \in 1..Len(x.alts) |-> Alt(x.alts[i])], Slash, 1)
Texts(q) == [i \in 1..Len(q) |-> ArgText(q[i])]
Ans(q) == Answer(X, Texts(q), 0, FALSE, NotDate)

None == [key |-> <<>>, alts |-> <<>>]
Init == args = <<>> /\ cur = None /\ n = 0 /\ done = FALSE
Begin == cur.alts = <<>> /\ ~done /\ n < MaxConds /\ \E k \in Keys, c \in Conds :
           cur' = [key |-> k, alts |-> <<<<c>>>>] /\ n' = n + 1 /\ UNCHANGED <<args, done>>
And == cur.alts # <<>> /\ n < MaxConds /\ \E c \in Conds :
           cur' = [cur EXCEPT !.alts[Len(cur.alts)] = Append(@, c)] /\ n' = n + 1 /\ UNCHANGED <<args, done>>
Or == cur.alts # <<>> /\ n < MaxConds /\ \E c \in Conds :
           cur' = [cur EXCEPT !.alts = Append(@, <<c>>)] /\ n' = n + 1 /\ UNCHANGED <<args, done>>
Close == cur.alts # <<>> /\ args' = Append(args, cur) /\ cur' = None /\ UNCHANGED <<n, done>>
Emit == cur = None /\ args # <<>> /\ ~done /\ done' = TRUE /\ UNCHANGED <<args, cur, n>>
        /\ PrintT("@@HIST " \o ToJson(Texts(args)))
Next == Begin \/ And \/ Or \/ Close \/ Emit
Spec == Init /\ [][Next]_vars

One(k, q) == Ans(<<[key |-> k, alts |-> q]>>)
Meet(S) == {i \in All : \A s \in S : i \in s}
(* arguments are all to hold, alternatives one of them, conjunctions all *)
Laws == cur = None /\ args # <<>> =>
  /\ Ans(args) = Meet({Ans(<<args[i]>>) : i \in 1..Len(args)})
  /\ \A i \in 1..Len(args) :
       LET x == args[i] IN
       /\ Ans(<<x>>) = UNION {One(x.key, <<x.alts[j]>>) : j \in 1..Len(x.alts)}
       /\ \A j \in 1..Len(x.alts) : One(x.key, <<x.alts[j]>>) = Meet({One(x.key, <<<<x.alts[j][k]>>>>) : k \in 1..Len(x.alts[j])})
       /\ \A c \in Conds : One(x.key, <<<<<<Tilde>> \o c>>>>) = All \ One(x.key, <<<<c>>>>) \/ c[1] = Tilde
  /\ Ans(args) = Ans([i \in 1..Len(args) |-> args[Len(args) + 1 - i]])
=============================================================================
