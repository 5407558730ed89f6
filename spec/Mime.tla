-------------------------------- MODULE Mime --------------------------------
(* From the bytes of a mail message to the texts a search looks at: header    *)
(* fields (unfolded, encoded words decoded), the decoded text parts at any    *)
(* depth, attachment names, message identifiers, date.                        *)
EXTENDS Text

NL == 10

NextNL(r, i) == NextIn(r, i, {NL})

AllSpace(s) == \A i \in 1..Len(s) : IsSpace(s[i])
RECURSIVE TrimLeft(_)
TrimLeft(s) == IF s # <<>> /\ IsSpace(s[1]) THEN TrimLeft(Tail(s)) ELSE s
RECURSIVE TrimRight(_)
TrimRight(s) == IF s # <<>> /\ IsSpace(s[Len(s)]) THEN TrimRight(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == TrimLeft(TrimRight(s))

----------------------------------------------------------------------------
FirstPos(s, c) == NextIn(s, 1, {c})

S_FromSp == <<70, 114, 111, 109, 32>>
IsFromish(line) == StartsWith(line, S_FromSp) \/ StartsWith(line, <<62>> \o S_FromSp)
(* "name:" at the start of the line *)
HasName(line) == LET c == FirstPos(line, 58) IN c > 1 /\ \A i \in 1..(c - 1) : ~IsSpace(line[i])

(* Header and body: [ok, lines (unfolded), body].  A header is usable if it    *)
(* ends within the message and each line has a name or continues a line;       *)
(* "From " lines are passed over.                                             *)
BadHeader == [ok |-> FALSE, lines |-> <<>>, body |-> <<>>]
RECURSIVE HeaderFrom(_, _, _, _)
HeaderFrom(r, i, acc, first) ==
  IF i > Len(r) THEN [ok |-> TRUE, lines |-> acc, body |-> <<>>]
  ELSE LET j == NextNL(r, i) IN
       IF j = 0 THEN BadHeader     \* the message ends within the header
       ELSE LET line == SubSeq(r, i, j - 1) IN
            IF AllSpace(line) THEN [ok |-> TRUE, lines |-> acc, body |-> SubSeq(r, j + 1, Len(r))]
            ELSE IF IsFromish(line) THEN HeaderFrom(r, j + 1, Append(acc, line), first)
            ELSE IF IsSpace(line[1])
                 THEN IF first THEN BadHeader
                      ELSE HeaderFrom(r, j + 1, [acc EXCEPT ![Len(acc)] = @ \o <<32>> \o TrimLeft(line)], FALSE)
            ELSE IF HasName(line) THEN HeaderFrom(r, j + 1, Append(acc, line), FALSE)
            ELSE BadHeader
Header(r) == HeaderFrom(r, 1, <<>>, TRUE)

NameOf(line) == LowerS(SubSeq(line, 1, FirstPos(line, 58) - 1))
ValueOf(line) == SubSeq(line, FirstPos(line, 58) + 1, Len(line))

(* All values of a header field, in order *)
Values(lines, name) ==
  LET L == SelectSeq(lines, LAMBDA x : NameOf(x) = name) IN [i \in 1..Len(L) |-> ValueOf(L[i])]
FirstValue(lines, name) == LET v == Values(lines, name) IN IF v = <<>> THEN v ELSE <<v[1]>>

N_to == <<116, 111>>
N_cc == <<99, 99>>
N_from == <<102, 114, 111, 109>>
N_subject == <<115, 117, 98, 106, 101, 99, 116>>
N_mid == <<109, 101, 115, 115, 97, 103, 101, 45, 105, 100>>
N_irt == <<105, 110, 45, 114, 101, 112, 108, 121, 45, 116, 111>>
N_refs == <<114, 101, 102, 101, 114, 101, 110, 99, 101, 115>>
N_ct == <<99, 111, 110, 116, 101, 110, 116, 45, 116, 121, 112, 101>>
N_cte == <<99, 111, 110, 116, 101, 110, 116, 45, 116, 114, 97, 110, 115, 102, 101, 114, 45, 101, 110, 99, 111, 100, 105, 110, 103>>
N_cd == <<99, 111, 110, 116, 101, 110, 116, 45, 100, 105, 115, 112, 111, 115, 105, 116, 105, 111, 110>>
N_status == <<115, 116, 97, 116, 117, 115>>
N_xstatus == <<120, 45, 115, 116, 97, 116, 117, 115>>
S_boundary == <<98, 111, 117, 110, 100, 97, 114, 121>>
S_filename == <<102, 105, 108, 101, 110, 97, 109, 101>>
S_name == <<110, 97, 109, 101>>
S_attachment == <<97, 116, 116, 97, 99, 104, 109, 101, 110, 116>>
S_multipart == <<109, 117, 108, 116, 105, 112, 97, 114, 116>>
S_text == <<116, 101, 120, 116>>
S_plain == <<112, 108, 97, 105, 110>>
S_html == <<104, 116, 109, 108>>
S_message == <<109, 101, 115, 115, 97, 103, 101>>
S_rfc822 == <<114, 102, 99, 56, 50, 50>>
S_qp == <<113, 117, 111, 116, 101, 100, 45, 112, 114, 105, 110, 116, 97, 98, 108, 101>>
S_base64 == <<98, 97, 115, 101, 54, 52>>
S_uu == <<120, 45, 117, 117, 101, 110, 99, 111, 100, 101>>
S_bit == <<98, 105, 116>>
S_plainly == {<<d>> \o m \o S_bit : d \in {55, 56}, m \in {<<>>, <<45>>, <<32>>}} \cup {<<98, 105, 110, 97, 114, 121>>}
S_begin == <<98, 101, 103, 105, 110, 32>>

----------------------------------------------------------------------------
(* Transfer encodings *)
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE 0

RECURSIVE WsThenNL(_, _)
WsThenNL(s, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = NL THEN i ELSE IF IsSpace(s[i]) THEN WsThenNL(s, i + 1) ELSE 0

RECURSIVE QPFrom(_, _, _)
QPFrom(s, i, acc) ==
  LET e == NextIn(s, i, {61}) IN
  IF e = 0 THEN acc \o SubSeq(s, i, Len(s))
  ELSE LET a == acc \o SubSeq(s, i, e - 1)
           j == WsThenNL(s, e + 1)
       IN IF j # 0 THEN QPFrom(s, j + 1, a)
          ELSE IF e + 2 > Len(s) THEN a
          ELSE QPFrom(s, e + 3, Append(a, HexVal(s[e + 1]) * 16 + HexVal(s[e + 2])))
DecodeQP(s) == QPFrom(s, 1, <<>>)

B64Char(c) == IsAlnum(c) \/ c \in {43, 47, 61}
B64Val(c) == CASE c \in 65..90 -> c - 65 [] c \in 97..122 -> c - 71 [] c \in 48..57 -> c + 4
               [] c = 43 -> 62 [] c = 47 -> 63 [] OTHER -> 0
Decode64(s0) ==
  LET s == TLCEval(SelectSeq(s0, B64Char))
      n == Len(s) \div 4
      Equals(g) == Cardinality({k \in (4 * g - 3)..(4 * g) : s[k] = 61})
      padded == TLCEval({g \in 1..n : Equals(g) > 0})             \* the first of them ends the data
      last == TLCEval(IF padded = {} THEN n ELSE CHOOSE g \in padded : \A h \in padded : g <= h)
      pad == IF padded = {} THEN 0 ELSE IF Equals(last) = 1 THEN 1 ELSE 2
      Quad(g) == ((B64Val(s[4 * g - 3]) * 64 + B64Val(s[4 * g - 2])) * 64 + B64Val(s[4 * g - 1])) * 64 + B64Val(s[4 * g])
      Byte(k) == LET g == (k - 1) \div 3 + 1
                     q == Quad(g)
                     p == (k - 1) % 3
                 IN IF p = 0 THEN q \div 65536 ELSE IF p = 1 THEN (q \div 256) % 256 ELSE q % 256
  IN TLCEval([k \in 1..(3 * last - pad) |-> Byte(k)])

UUVal(c) == (c + 32) % 64            \* (c - 32) mod 64
RECURSIVE UUFrom(_, _, _)
UULine(line) ==
  LET n == UUVal(line[1])
      V(k) == UUVal(line[k + 1])
      Byte(k) == LET g == 4 * ((k - 1) \div 3)
                     p == (k - 1) % 3
                 IN IF p = 0 THEN (V(g + 1) * 4 + V(g + 2) \div 16) % 256
                    ELSE IF p = 1 THEN (V(g + 2) * 16 + V(g + 3) \div 4) % 256
                    ELSE (V(g + 3) * 64 + V(g + 4)) % 256
  IN TLCEval([k \in 1..n |-> Byte(k)])
UUFrom(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE LET j0 == NextNL(s, i)
           j == IF j0 = 0 THEN Len(s) + 1 ELSE j0
           line == SubSeq(s, i, j - 1)
       IN IF line = <<>> \/ UUVal(line[1]) = 0 THEN acc
          ELSE UUFrom(s, j + 1, acc \o UULine(line))
DecodeUU(s) ==
  LET S == {i \in 1..Len(s) : At(s, S_begin, i)}
      b == CHOOSE i \in S : \A j \in S : i <= j
  IN IF S = {} \/ NextNL(s, b) = 0 THEN <<>> ELSE UUFrom(s, NextNL(s, b) + 1, <<>>)

Decode(s, enc) ==
  LET e == LowerS(enc) IN
  IF StartsWith(e, S_qp) THEN DecodeQP(s)
  ELSE IF StartsWith(e, S_base64) THEN Decode64(s)
  ELSE IF StartsWith(e, S_uu) THEN DecodeUU(s)
  ELSE IF \E p \in S_plainly : StartsWith(e, p) THEN s
  ELSE <<>>                          \* an encoding nobody knows

(* Encoded words in headers: =?charset?Q?text?= and =?charset?B?text?= *)
RECURSIVE PosOf(_, _, _)
PosOf(s, p, i) ==
  LET k == NextIn(s, i, {p[1]}) IN
  IF k = 0 \/ k + Len(p) - 1 > Len(s) THEN 0 ELSE IF At(s, p, k) THEN k ELSE PosOf(s, p, k + 1)
RECURSIVE QWord(_, _, _)
QWord(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE IF s[i] = 95 THEN QWord(s, i + 1, Append(acc, 32))
  ELSE IF s[i] = 61 /\ i + 2 <= Len(s) THEN QWord(s, i + 3, Append(acc, HexVal(s[i + 1]) * 16 + HexVal(s[i + 2])))
  ELSE QWord(s, i + 1, Append(acc, s[i]))
(* after: an encoded word ends right before s.  White space between two       *)
(* encoded words is not part of the text.                                     *)
RECURSIVE EncFrom(_, _)
EncFrom(s, after) ==
  LET a == PosOf(s, <<61, 63>>, 1) IN
  IF a = 0 THEN s
  ELSE LET q1 == PosOf(s, <<63>>, a + 2)
           q2 == IF q1 = 0 THEN 0 ELSE PosOf(s, <<63>>, q1 + 1)
           e == IF q2 = 0 THEN 0 ELSE PosOf(s, <<63, 61>>, q2 + 1)
       IN IF e = 0 THEN s
          ELSE LET kind == LowerS(SubSeq(s, q1 + 1, q2 - 1))
                   txt == SubSeq(s, q2 + 1, e - 1)
                   known == kind \in {<<113>>, <<98>>}
                   gap == SubSeq(s, 1, a - 1)
                   dec == IF kind = <<113>> THEN QWord(txt, 1, <<>>)
                          ELSE IF kind = <<98>> THEN Decode64(txt)
                          ELSE SubSeq(s, a, e + 1)
               IN (IF after /\ known /\ \A i \in 1..Len(gap) : IsSpace(gap[i]) THEN <<>> ELSE gap)
                  \o dec \o EncFrom(SubSeq(s, e + 2, Len(s)), known)
EncWords(s) == EncFrom(s, FALSE)

----------------------------------------------------------------------------
(* Structured header values: main value and parameters *)
RECURSIVE SplitSemi(_, _, _, _)
SplitSemi(s, i, j, quoted) ==
  IF j > Len(s) THEN <<SubSeq(s, i, Len(s))>>
  ELSE IF s[j] = 34 THEN SplitSemi(s, i, j + 1, ~quoted)
  ELSE IF s[j] = 59 /\ ~quoted THEN <<SubSeq(s, i, j - 1)>> \o SplitSemi(s, j + 1, j + 1, FALSE)
  ELSE SplitSemi(s, i, j + 1, quoted)
Pieces(v) == SplitSemi(v, 1, 1, FALSE)
Unquote(s) == IF Len(s) >= 2 /\ s[1] = 34 /\ s[Len(s)] = 34 THEN SubSeq(s, 2, Len(s) - 1) ELSE s
ParamName(p) == LowerS(Trim(SubSeq(p, 1, FirstPos(p, 61) - 1)))
ParamValue(p) == Unquote(Trim(SubSeq(p, FirstPos(p, 61) + 1, Len(p))))
RECURSIVE Percent(_, _, _)
Percent(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE IF s[i] = 37 /\ i + 2 <= Len(s) THEN Percent(s, i + 3, Append(acc, HexVal(s[i + 1]) * 16 + HexVal(s[i + 2])))
  ELSE Percent(s, i + 1, Append(acc, s[i]))
AfterCharset(s) ==               \* charset'language'value
  LET q == FirstPos(s, 39)
      z == IF q = 0 THEN 0 ELSE PosOf(s, <<39>>, q + 1)
  IN IF z = 0 THEN s ELSE SubSeq(s, z + 1, Len(s))
(* name=v, name*=charset''v, name*0=v; name*1=v ..., name*0*=charset''v; name*1*=v ...  *)
(* Of several whole values the first counts.                                            *)
RECURSIVE JoinParams(_, _, _, _)
JoinParams(ps, name, k, acc) ==
  IF k > Len(ps) THEN acc
  ELSE LET n == IF FirstPos(ps[k], 61) = 0 THEN <<>> ELSE ParamName(ps[k])
           rest == SubSeq(n, Len(name) + 1, Len(n))
           mine == StartsWith(n, name) /\ (rest = <<>> \/ rest[1] = 42)
           v == ParamValue(ps[k])
           ext == rest # <<>> /\ rest[Len(rest)] = 42
           whole == rest \in {<<>>, <<42>>, <<42, 48, 42>>}
           dec == IF ext THEN Percent(IF whole THEN AfterCharset(v) ELSE v, 1, <<>>) ELSE v
       IN JoinParams(ps, name, k + 1, IF ~mine \/ (whole /\ acc.has) THEN acc ELSE [has |-> TRUE, val |-> acc.val \o dec])
Param(v, name) == JoinParams(Tail(Pieces(v)), name, 1, [has |-> FALSE, val |-> <<>>])
MainValue(v) == LowerS(Trim(Pieces(v)[1]))

----------------------------------------------------------------------------
(* HTML: tags are not text *)
RECURSIVE StripFrom(_, _, _)
StripFrom(s, i, acc) ==
  LET a == NextIn(s, i, {60})
      z == IF a = 0 THEN 0 ELSE NextIn(s, a, {62})
  IN IF a = 0 THEN acc \o SubSeq(s, i, Len(s))
     ELSE IF z = 0 THEN acc \o SubSeq(s, i, a - 1)
     ELSE StripFrom(s, z + 1, acc \o SubSeq(s, i, a - 1) \o <<32>>)
StripTags(s) == StripFrom(s, 1, <<>>)

(* A header field ends at a null byte *)
ToNul(s) == LET z == FirstPos(s, 0) IN IF z = 0 THEN s ELSE SubSeq(s, 1, z - 1)

(* The parts of a multipart body *)
LineStarts(s) == {i \in 1..Len(s) : i = 1 \/ s[i - 1] = NL}
IsBoundary(s, b, i) ==
  /\ At(s, <<45, 45>> \o b, i)
  /\ LET k == i + 2 + Len(b) IN
     \/ LET e == NextNL(s, k)  \* white space may follow
        IN \A j \in k..(IF e = 0 THEN Len(s) ELSE e - 1) : s[j] \in {32, 9, 13}
     \/ k + 1 <= Len(s) /\ s[k] = 45 /\ s[k + 1] = 45
IsEndBoundary(s, b, i) == LET k == i + 2 + Len(b) IN k + 1 <= Len(s) /\ s[k] = 45 /\ s[k + 1] = 45
RECURSIVE PartsFrom(_, _, _, _)
PartsFrom(s, b, B, i) ==        \* i : position of a boundary line
  IF IsEndBoundary(s, b, i) \/ NextNL(s, i) = 0 THEN <<>>
  ELSE LET N == {k \in B : k > i} IN
       IF N = {}                \* the last part ends with the message
       THEN IF NextNL(s, i) = Len(s) THEN <<>> ELSE <<SubSeq(s, NextNL(s, i) + 1, Len(s))>>
       ELSE LET j == CHOOSE k \in N : \A m \in N : k <= m
            IN <<SubSeq(s, NextNL(s, i) + 1, j - 1)>> \o PartsFrom(s, b, B, j)
Parts(s, b) ==
  LET B == {i \in LineStarts(s) : IsBoundary(s, b, i)} IN
  IF B = {} THEN <<>> ELSE PartsFrom(s, b, B, CHOOSE i \in B : \A j \in B : i <= j)

----------------------------------------------------------------------------
(* What a message contributes: a record of sequences of texts *)
Nothing == [to |-> <<>>, cc |-> <<>>, from |-> <<>>, subj |-> <<>>, body |-> <<>>, att |-> <<>>,
            mid |-> <<>>, refs |-> <<>>]
Join(a, b) == [k \in DOMAIN Nothing |-> a[k] \o b[k]]
RECURSIVE JoinAll(_)
JoinAll(s) == IF s = <<>> THEN Nothing ELSE Join(s[1], JoinAll(Tail(s)))

(* Identifiers between < and > *)
RECURSIVE AngledFrom(_, _)
AngledFrom(s, i) ==
  LET a == PosOf(s, <<60>>, i)
      z == IF a = 0 THEN 0 ELSE PosOf(s, <<62>>, a + 1)
  IN IF z = 0 THEN <<>> ELSE <<SubSeq(s, a + 1, z - 1)>> \o AngledFrom(s, z + 1)
Angled(vs) == IF vs = <<>> THEN <<>> ELSE AngledFrom(vs[1], 1)
DecAll(vs) == [i \in 1..Len(vs) |-> ToNul(EncWords(vs[i]))]

RECURSIVE BodyOf(_, _)
RECURSIVE MessageOf(_)
PartOf(r) == LET h == Header(r) IN IF h.ok THEN BodyOf(h.lines, h.body) ELSE Nothing
BodyOf(lines, raw) ==
  LET cte == FirstValue(lines, N_cte)
      ct == FirstValue(lines, N_ct)
      cd == FirstValue(lines, N_cd)
      data == TLCEval(IF cte = <<>> THEN raw ELSE Decode(raw, Trim(cte[1])))
  IN IF ct = <<>>
     THEN LET fn == IF cd # <<>> /\ MainValue(cd[1]) = S_attachment THEN Param(cd[1], S_filename) ELSE [has |-> FALSE, val |-> <<>>]
          IN [Nothing EXCEPT !.body = <<data>>, !.att = IF fn.has THEN <<fn.val>> ELSE <<>>]
     ELSE LET mt == Split(MainValue(ct[1]), 47)
              major == mt[1]
              minor == IF Len(mt) > 1 THEN mt[2] ELSE <<>>
              isatt == cd # <<>> /\ MainValue(cd[1]) = S_attachment
              fn == IF ~isatt THEN [has |-> FALSE, val |-> <<>>]
                    ELSE LET f == Param(cd[1], S_filename) IN IF f.has THEN f ELSE Param(ct[1], S_name)
              named == IF fn.has THEN [Nothing EXCEPT !.att = <<fn.val>>] ELSE Nothing
          IN CASE major = S_multipart ->
                    LET b == Param(ct[1], S_boundary)
                        ps == IF b.has THEN Parts(data, b.val) ELSE <<>>
                    IN JoinAll([k \in 1..Len(ps) |-> PartOf(ps[k])])
               [] major = S_text /\ minor = S_plain -> [named EXCEPT !.body = <<data>>]
               [] major = S_text /\ minor = S_html -> [named EXCEPT !.body = <<StripTags(data)>>]
               [] major = S_message /\ minor = S_rfc822 -> Join(named, MessageOf(data))
               [] OTHER -> named
MessageOf(r) ==
  LET h == Header(r) IN
  IF ~h.ok THEN Nothing
  ELSE Join([Nothing EXCEPT !.to = DecAll(Values(h.lines, N_to)), !.cc = DecAll(Values(h.lines, N_cc)),
                            !.from = DecAll(FirstValue(h.lines, N_from)),
                            !.subj = DecAll(FirstValue(h.lines, N_subject)),
                            !.mid = Angled(FirstValue(h.lines, N_mid)),
                            !.refs = Angled(FirstValue(h.lines, N_irt)) \o Angled(FirstValue(h.lines, N_refs))],
            BodyOf(h.lines, h.body))
=============================================================================
