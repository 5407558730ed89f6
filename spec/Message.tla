------------------------------ MODULE Message -------------------------------
(* What the index knows of one message: the searchable record of Query, made  *)
(* from the bytes of the message, its path and its kind of folder.            *)
(*                                                                            *)
(* A recorded message has a path and either raw (its bytes) or its texts      *)
(* spelled out; kind is "file" (Maildir, MH: flags are in the file name) or   *)
(* "mbox" (flags are in Status headers) or "imap" (no flags).                 *)
EXTENDS Mime, Query, Dates

Attr(m, k, default) == IF k \in DOMAIN m THEN m[k] ELSE default

(* Date header: [weekday,] day month year rest; day 0 if there is none *)
RECURSIVE SkipSpaces(_, _)
SkipSpaces(s, i) == IF i <= Len(s) /\ IsSpace(s[i]) THEN SkipSpaces(s, i + 1) ELSE i
RECURSIVE SkipWord(_, _)
SkipWord(s, i) == IF i <= Len(s) /\ ~IsSpace(s[i]) THEN SkipWord(s, i + 1) ELSE i
HeaderDay(v) ==
  LET w == NextIn(v, 1, {44} \cup (48..57))       \* a comma before the day ends a weekday, others mean nothing
      d0 == SkipSpaces(v, IF w # 0 /\ v[w] = 44 THEN w + 1 ELSE 1)
      dt == SubSeq(v, d0, Len(v))
      m0 == SkipSpaces(dt, DigitsEnd(dt, 0) + 1)
      y0 == SkipSpaces(dt, SkipWord(dt, m0))
      yt == SubSeq(dt, y0, Len(dt))
      y == Num(yt)
      d == Num(dt)
      mon == MonthOf(SubSeq(dt, m0, Min2(m0 + 2, Len(dt))))
  IN DayNum(IF y < 70 THEN 2000 + y ELSE IF y < 1900 THEN 1900 + y ELSE y, mon, d)

(* Maildir flags: letters after the last ":2," of the path *)
LastPos(s, c) == LET S == {i \in 1..Len(s) : s[i] = c} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i >= j
NameFlags(path) ==
  LET c == LastPos(path, 58)
      ok == c # 0 /\ At(path, <<58, 50, 44>>, c)
      L == IF ok THEN RangeOf(SubSeq(path, c + 3, Len(path))) ELSE {}
      B(x) == IF x \in L THEN 1 ELSE 0
  IN [seen |-> B(83), replied |-> B(82), flagged |-> B(70)]
StatusFlags(lines) ==
  LET V == Values(lines, N_status) \o Values(lines, N_xstatus)
      L == UNION {RangeOf(V[i]) : i \in 1..Len(V)}
      B(x) == IF x \in L THEN 1 ELSE 0
  IN [seen |-> B(82), replied |-> B(65), flagged |-> B(70)]

NoFlags == [seen |-> 0, replied |-> 0, flagged |-> 0]

IsGitignore(path) == EndsWith(path, <<47, 46, 103, 105, 116, 105, 103, 110, 111, 114, 101>>)

Content(m) ==
  LET israw == "raw" \in DOMAIN m
      path == Attr(m, "path", <<>>)
      kind == Attr(m, "kind", "file")
      h == IF israw THEN Header(m.raw) ELSE [ok |-> TRUE, lines |-> <<>>, body |-> <<>>]
      usable == h.ok /\ ~(kind = "file" /\ IsGitignore(path))
      c == IF israw THEN IF usable THEN MessageOf(m.raw) ELSE Nothing
           ELSE [k \in DOMAIN Nothing |-> Attr(m, k, <<>>)]
      dv == FirstValue(h.lines, <<100, 97, 116, 101>>)
      fl == IF ~usable THEN NoFlags
            ELSE IF kind = "file" THEN NameFlags(path) ELSE IF kind = "mbox" THEN StatusFlags(h.lines) ELSE NoFlags
  IN Prepare([to |-> c.to, cc |-> c.cc, from |-> c.from, subj |-> c.subj, body |-> c.body, att |-> c.att,
              mid |-> c.mid, refs |-> c.refs, path |-> path,
              seen |-> fl.seen, replied |-> fl.replied, flagged |-> fl.flagged,
              size |-> IF kind = "imap" THEN 0 ELSE IF israw THEN Len(m.raw) ELSE Attr(m, "size", 0),
              day |-> IF israw THEN (IF usable /\ dv # <<>> THEN HeaderDay(dv[1]) ELSE 0) ELSE Attr(m, "day", 0),
              live |-> Attr(m, "live", 1)])
=============================================================================
