------------------------------- MODULE Query --------------------------------
(* The meaning of mairix query expressions over a set of messages.            *)
(*                                                                            *)
(* A message is a record                                                      *)
(*   to, cc, from, subj, body, att, mid, refs : sequences of texts (see Mime), *)
(*   path : text, seen, replied, flagged : 0/1, size : number of bytes,       *)
(*   day : day number of its Date header (-1 if it has none), live : 0/1      *)
(* and an index over it holds the derived sets of words (Prepare).            *)
EXTENDS Text

RangeOf(s) == {s[i] : i \in 1..Len(s)}

(* The searchable content of a message *)
Prepare(m) ==
  [ t |-> UNION {AddrWords(x) : x \in RangeOf(m.to)}, c |-> UNION {AddrWords(x) : x \in RangeOf(m.cc)},
    f |-> UNION {AddrWords(x) : x \in RangeOf(m.from)}, s |-> UNION {Words(x) : x \in RangeOf(m.subj)},
    b |-> UNION {Words(x) : x \in RangeOf(m.body)},
    n |-> {LowerS(m.att[i]) : i \in 1..Len(m.att)},
    m |-> {LowerS(m.mid[i]) : i \in 1..Len(m.mid)},
    ids |-> {LowerS(m.mid[i]) : i \in 1..Len(m.mid)} \cup {LowerS(m.refs[i]) : i \in 1..Len(m.refs)},
    p |-> m.path, seen |-> m.seen, replied |-> m.replied, flagged |-> m.flagged,
    size |-> m.size, day |-> m.day, live |-> m.live ]

----------------------------------------------------------------------------
(* One argument: [fields ':'] alternatives separated by '/', each a           *)
(* conjunction of conditions separated by ','                                 *)
Slash == 47
Comma == 44
Tilde == 126
Caret == 94
Equals == 61
Colon == 58
LetterB == 98
LetterS == 115
LetterT == 116
LetterC == 99
LetterF == 102
LetterR == 114
LetterA == 97
LetterN == 110
LetterP == 112
LetterM == 109
LetterD == 100
LetterZ == 122
LetterCapF == 70

ColonAt(a) == LET S == {i \in 1..Len(a) : a[i] = Colon}
              IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
Letters(a) == IF ColonAt(a) = 0 THEN {} ELSE {a[i] : i \in 1..(ColonAt(a) - 1)}
Rest(a) == SubSeq(a, ColonAt(a) + 1, Len(a))

FieldsOf(a) ==
  LET L == Letters(a)
      One(x) == CASE x = LetterB -> {"b"} [] x = LetterS -> {"s"} [] x = LetterT -> {"t"}
                  [] x = LetterC -> {"c"} [] x = LetterF -> {"f"} [] x = LetterR -> {"t", "c"}
                  [] x = LetterA -> {"t", "c", "f"} [] x = LetterN -> {"n"} [] x = LetterP -> {"p"}
                  [] OTHER -> {}
  IN IF ColonAt(a) = 0 THEN {"b", "s", "t", "c", "f"} ELSE UNION {One(x) : x \in L}

(* A condition: ['~'] ['^'] word ['=' [number]] *)
ParseCond(w0) ==
  LET neg == Len(w0) > 0 /\ w0[1] = Tilde
      w1 == IF neg THEN Tail(w0) ELSE w0
      anchored == Len(w1) > 0 /\ w1[1] = Caret
      w2 == IF anchored THEN Tail(w1) ELSE w1
      E == {i \in 1..Len(w2) : w2[i] = Equals}
      e == IF E = {} THEN 0 ELSE CHOOSE i \in E : \A j \in E : i <= j
      sub == e # 0 /\ (e = Len(w2) \/ IsDigit(w2[e + 1]))
  IN [neg |-> neg, anchored |-> anchored, sub |-> sub,
      word |-> IF sub THEN SubSeq(w2, 1, e - 1) ELSE w2,
      errors |-> IF sub THEN Num(SubSeq(w2, e + 1, Len(w2))) ELSE 0]

(* "must" and "may": for anchored approximate conditions only bounds on the    *)
(* set of matching words are specified.                                       *)
WordMatches(w, c, may) ==
  LET p == LowerS(c.word) IN
  IF ~c.sub THEN w = p
  ELSE IF c.errors = 0 THEN IF c.anchored THEN StartsWith(w, p) ELSE HasSub(w, p)
  ELSE IF c.anchored /\ ~may THEN StartsWith(w, p)
  ELSE Approx(w, p, c.errors, FALSE)
PathMatches(path, c, may) ==
  IF ~c.sub \/ c.errors = 0
  THEN IF c.anchored THEN StartsWith(path, c.word) ELSE HasSub(path, c.word)
  ELSE IF c.anchored /\ ~may THEN StartsWith(path, c.word)
  ELSE Approx(path, c.word, c.errors, FALSE)

FieldMatches(x, f, c, may) ==
  IF f = "p" THEN PathMatches(x.p, c, may)
  ELSE IF ~c.sub THEN LowerS(c.word) \in x[f]
  ELSE \E w \in x[f] : WordMatches(w, c, may)

CondHolds(x, fields, c, may) ==
  IF c.neg THEN ~(\E f \in fields : FieldMatches(x, f, c, ~may))
  ELSE \E f \in fields : FieldMatches(x, f, c, may)

(* Size ranges: bounds are exclusive *)
MaxSize == 2147483647     \* larger than any message; every greater number means the same
SizeNum(s) ==
  LET L == IF Len(s) = 0 THEN 0 ELSE s[Len(s)]
      f == CASE L \in {75, 107} -> 1024 [] L \in {77, 109} -> 1048576 [] OTHER -> 1
      n == IF Cardinality({i \in 1..Len(s) : IsDigit(s[i])}) > 9 THEN MaxSize ELSE Num(s)
  IN IF n > MaxSize \div f THEN MaxSize ELSE n * f
SizeHolds(x, s) ==
  LET parts == Split(s, 45) IN
  IF Len(parts) = 1 THEN x.size < SizeNum(s)
  ELSE LET lo0 == parts[1]
           hi0 == parts[2]
           sw == lo0 # <<>> /\ hi0 # <<>> /\ SizeNum(lo0) > SizeNum(hi0)
           lo == IF sw THEN hi0 ELSE lo0
           hi == IF sw THEN lo0 ELSE hi0
       IN /\ (lo = <<>> \/ x.size > SizeNum(lo))
          /\ (hi = <<>> \/ x.size < SizeNum(hi))

(* Flags: letters s r f, each optionally preceded by '-' *)
FlagHolds(x, s) ==
  \A i \in 1..Len(s) :
    LET want == IF i > 1 /\ s[i - 1] = 45 THEN 0 ELSE 1
    IN CASE Lower(s[i]) = LetterS -> x.seen = want
         [] Lower(s[i]) = LetterR -> x.replied = want
         [] Lower(s[i]) = LetterF -> x.flagged = want
         [] OTHER -> TRUE

----------------------------------------------------------------------------
(* The meaning of an argument list.  Parsed form first, so that it is         *)
(* computed once per query.                                                   *)
ParseAlt(s) == LET cs == Split(s, Comma) IN [i \in 1..Len(cs) |-> ParseCond(cs[i])]
ParseArg(a) ==
  LET L == Letters(a) IN
  CASE LetterZ \in L -> [kind |-> "size", text |-> Rest(a)]
    [] LetterD \in L -> [kind |-> "date", text |-> Rest(a)]
    [] LetterCapF \in L -> [kind |-> "flags", text |-> Rest(a)]
    [] LetterM \in L -> [kind |-> "msgid", text |-> LowerS(Rest(a))]
    [] OTHER -> LET alts == Split(Rest(a), Slash)
                IN [kind |-> "words", fields |-> FieldsOf(a),
                    alts |-> [i \in 1..Len(alts) |-> ParseAlt(alts[i])]]

(* DateHolds(day, text) is supplied by the module that knows the calendar *)
ArgHolds(x, a, may, DateHolds(_, _)) ==
  CASE a.kind = "size" -> SizeHolds(x, a.text)
    [] a.kind = "flags" -> FlagHolds(x, a.text)
    [] a.kind = "msgid" -> a.text \in x.m
    [] a.kind = "date" -> DateHolds(x.day, a.text)
    [] OTHER -> \E i \in 1..Len(a.alts) :
                  \A j \in 1..Len(a.alts[i]) : CondHolds(x, a.fields, a.alts[i][j], may)

Selected(X, args, may, DateHolds(_, _)) ==
  LET pa == TLCEval([k \in 1..Len(args) |-> ParseArg(args[k])])
  IN {i \in 1..Len(X) : X[i].live = 1 /\ \A k \in 1..Len(pa) : ArgHolds(X[i], pa[k], may, DateHolds)}

(* Threads: live messages connected by shared identifiers *)
RECURSIVE Closure(_, _, _)
Closure(X, S, ids) ==
  LET T == {i \in 1..Len(X) : X[i].live = 1 /\ X[i].ids \cap ids # {}} \cup S
      nids == ids \cup UNION {X[i].ids : i \in T}
  IN IF T = S /\ nids = ids THEN S ELSE Closure(X, T, nids)
ThreadsOf(X, S) == Closure(X, S, UNION {X[i].ids : i \in S})

Answer(X, args, threads, may, DateHolds(_, _)) ==
  LET S == Selected(X, args, may, DateHolds) IN IF threads = 1 THEN ThreadsOf(X, S) ELSE S
=============================================================================
