-------------------------------- MODULE Mbox --------------------------------
(* The messages of an mbox or MMDF folder, as byte ranges.                    *)
EXTENDS Mime, TLC

UPPER == 65..90
LOWER == 97..122
DIGIT == 48..57
WHITE == {32, 9}
DOMAINCH == UPPER \cup LOWER \cup DIGIT \cup {45, 95, 46}
EMAILCH == UPPER \cup LOWER \cup DIGIT \cup {43, 45}
           \cup {46, 33, 35, 36, 37, 38, 39, 42, 47, 61, 63, 94, 95, 96, 123, 124, 125, 126}
QUOTEDCH == EMAILCH \cup WHITE \cup {64, 58, 60, 62}

(* Matching by sets of positions: from any position of P read ... *)
One(r, P, C) == {p + 1 : p \in {q \in P : q <= Len(r) /\ r[q] \in C}}
RECURSIVE Star(_, _, _)
Star(r, P, C) == LET Q == P \cup One(r, P, C) IN IF Q = P THEN P ELSE Star(r, Q, C)
Plus(r, P, C) == Star(r, One(r, P, C), C)
Opt(P, Q) == P \cup Q
RECURSIVE Each(_, _, _)
Each(r, P, cs) == IF cs = <<>> THEN P ELSE Each(r, One(r, P, cs[1]), Tail(cs))

Quoted(r, P) == One(r, Star(r, One(r, P, {34}), QUOTEDCH), {34})
Route(r, P) == One(r, Star(r, One(r, P, {64}), DOMAINCH), {58})
RECURSIVE Routes(_, _)
Routes(r, P) == LET Q == P \cup One(r, P, EMAILCH) \cup Route(r, P) IN IF Q = P THEN P ELSE Routes(r, Q)
RECURSIVE Locals(_, _)
Locals(r, P) == LET Q == P \cup One(r, P, EMAILCH) \cup Quoted(r, P) IN IF Q = P THEN P ELSE Locals(r, Q)
Email(r, P) ==
  LET R == Routes(r, P)
      L == Locals(r, One(r, R, EMAILCH) \cup Quoted(r, R))
      A == One(r, L, {64})
  IN L \cup Plus(r, A, DOMAINCH) \cup One(r, Star(r, One(r, A, {91}), DIGIT \cup {46}), {93})
Angled1(r, P) == One(r, Email(r, One(r, P, {60})), {62})

Zone(r, P) ==
  LET Z2 == One(r, P, UPPER \cup {43, 45})
  IN One(r, P, UPPER) \cup Plus(r, Z2, UPPER \cup LOWER \cup DIGIT)
Ws(r, P) == Plus(r, P, WHITE)
Abbr3 == <<UPPER, LOWER, LOWER>>
Time(r, P) == LET HM == Each(r, P, <<DIGIT, DIGIT, {58}, DIGIT, DIGIT>>)
              IN Ws(r, HM \cup Each(r, HM, <<{58}, DIGIT, DIGIT>>))
DayNo(r, P) == Ws(r, One(r, P, DIGIT) \cup Each(r, P, <<DIGIT, DIGIT>>))
(* weekday month day time [zone [zone]] year *)
StdDate(r, P) ==
  LET T == Time(r, DayNo(r, Ws(r, Each(r, Ws(r, Each(r, Ws(r, P), Abbr3)), Abbr3))))
      Z1 == Ws(r, Zone(r, T))
      Z2 == Ws(r, Zone(r, Z1))
  IN Each(r, T \cup Z1 \cup Z2, <<DIGIT, DIGIT, DIGIT, DIGIT>>)
(* weekday, day month year time *)
OldDate(r, P) ==
  LET M == Each(r, DayNo(r, Ws(r, Each(r, Ws(r, P), Abbr3 \o <<{44}>>))), Abbr3 \o <<WHITE>>)
      Y == Star(r, Each(r, M, <<DIGIT, DIGIT>>) \cup Each(r, M, <<DIGIT, DIGIT, DIGIT, DIGIT>>), WHITE)
  IN Time(r, Y)

S_From == <<70, 114, 111, 109, 32>>
IsFromLine(r, i) ==
  /\ At(r, S_From, i)
  /\ LET P == Star(r, {i + 5}, WHITE)
         A == P \cup Email(r, P) \cup Angled1(r, P) \cup One(r, P, {43, 45})
     IN StdDate(r, A) # {} \/ OldDate(r, A) # {}

----------------------------------------------------------------------------
S_mmdf == <<1, 1, 1, 1, 10>>
IsMmdf(r) == Len(r) > 10 /\ At(r, S_mmdf, 1)

SeqOfSet(S) == [i \in 1..Cardinality(S) |-> CHOOSE x \in S : Cardinality({y \in S : y < x}) = i - 1]

(* Chunks between separators: first and last byte, 1-based *)
FromChunks(r) ==
  LET S == {i \in LineStarts(r) : IsFromLine(r, i)}
      seps == TLCEval(SeqOfSet(S))
      ok == {k \in 1..Len(seps) : NextNL(r, seps[k]) # 0 /\ NextNL(r, seps[k]) < Len(r)}
  IN [k \in 1..Cardinality(ok) |->
        [s |-> NextNL(r, seps[k]) + 1, e |-> IF k < Len(seps) THEN seps[k + 1] - 1 ELSE Len(r)]]
RECURSIVE MmdfFrom(_, _)
MmdfFrom(r, i) ==        \* i : where to look for an opening separator; what stands before it belongs to no message
  LET M == TLCEval({k \in LineStarts(r) : k >= i /\ At(r, S_mmdf, k)}) IN
  IF M = {} THEN <<>>
  ELSE LET o == CHOOSE k \in M : \A j \in M : k <= j
           s == o + 5
           C == {k \in M : k >= s}
       IN IF C = {} THEN <<[s |-> s, e |-> Len(r)]>>
          ELSE LET e == CHOOSE k \in C : \A j \in C : k <= j
               IN <<[s |-> s, e |-> e - 1]>> \o MmdfFrom(r, e + 5)
MmdfChunks(r) == MmdfFrom(r, 1)
Chunks(r) == IF IsMmdf(r) THEN MmdfChunks(r) ELSE FromChunks(r)

(* A message whose outermost multipart body lacks its end boundary is taken   *)
(* to go on into the next chunks, if that completes it.                       *)
RECURSIVE MissingEnd(_)
MissingEnd(r) ==
  LET h == TLCEval(Header(r))
      ct == FirstValue(h.lines, N_ct)
      cte == FirstValue(h.lines, N_cte)
      data == TLCEval(IF cte = <<>> THEN h.body ELSE Decode(h.body, Trim(cte[1])))
  IN /\ h.ok /\ ct # <<>>
     /\ LET mv == MainValue(ct[1])
            b == TLCEval(Param(ct[1], S_boundary))
        IN \/ /\ StartsWith(mv, S_multipart \o <<47>>) /\ b.has
              /\ ~\E i \in TLCEval(LineStarts(data)) : IsBoundary(data, b.val, i) /\ IsEndBoundary(data, b.val, i)
           \/ /\ mv = S_message \o <<47>> \o S_rfc822 /\ MissingEnd(data)
RECURSIVE Extent(_, _, _, _)
Extent(r, ch, k, last) ==     \* last chunk of the message that starts with chunk k
  IF last > Len(ch) \/ last - k >= 100 THEN k
  ELSE IF MissingEnd(TLCEval(SubSeq(r, ch[k].s, ch[last].e))) THEN Extent(r, ch, k, last + 1)
  ELSE last
RECURSIVE RangesFrom(_, _, _)
RangesFrom(r, ch, k) ==
  IF k > Len(ch) THEN <<>>
  ELSE LET j == TLCEval(Extent(r, ch, k, k)) IN <<[s |-> ch[k].s, e |-> ch[j].e]>> \o RangesFrom(r, ch, j + 1)
MboxRanges(r) == TLCEval(RangesFrom(r, TLCEval(Chunks(r)), 1))
=============================================================================
