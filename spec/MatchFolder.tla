---------------------------- MODULE MatchFolder -----------------------------
(* Searches into a match folder: what it holds afterwards, and what of the    *)
(* user's files a run may touch.                                              *)
(*                                                                            *)
(*   out : match folder -> sequence of the signatures of its items            *)
EXTENDS Mairix
LOCAL INSTANCE SequencesExt

VARIABLE out

(* An item as a mail reader sees it: its bytes (but for newlines at the end)   *)
(* and, in a Maildir or on an IMAP server, its flags.                                              *)
EndOf(s) == SelectLastInSeq(s, LAMBDA c : c # NL)
NoNL(s) == SubSeq(s, 1, EndOf(s))
Sig(raw, fl, fmt) == IF fmt \in {"maildir", "imap"} THEN <<NoNL(raw), fl.seen, fl.replied, fl.flagged>> ELSE <<NoNL(raw)>>

S_source == <<88, 45, 115, 111, 117, 114, 99, 101, 45, 102, 111, 108, 100, 101, 114, 58, 32>>      \* "X-source-folder: "
SourceLine(path) == S_source \o path \o <<NL>>

(* How the message id (file, start, end) appears in a match folder *)
RawOf(id) ==
  LET f == store[id[1]]
      all == IF "raw" \in DOMAIN f THEN f.raw ELSE f.bytes
  IN IF id[2] = -1 THEN all ELSE SubSeq(all, id[2] + 1, id[3])
FlagsOf(id) ==
  LET its == index[id[1]].items
      k == CHOOSE j \in 1..Len(its) : its[j].s = id[2]
  IN its[k].x
(* In an mbox, lines that would start another message are quoted. *)
RECURSIVE InsertGt(_, _)
InsertGt(r, seps) ==
  IF seps = <<>> THEN r
  ELSE LET i == seps[Len(seps)] IN InsertGt(SubSeq(r, 1, i - 1) \o <<62>> \o SubSeq(r, i, Len(r)), SubSeq(seps, 1, Len(seps) - 1))
QuoteFrom(r) == LET S == {i \in LineStarts(r) : IsFromLine(r, i)} IN IF S = {} THEN r ELSE InsertGt(r, TLCEval(SeqOfSet(S)))
DeliveredAs(id, fmt) ==
  LET f == store[id[1]]
      copied == f.kind # "imap" /\ fmt # "imap" /\ (fmt = "mbox" \/ id[2] # -1)       \* not linked: says where it came from
      raw == IF fmt = "mbox" THEN QuoteFrom(RawOf(id)) ELSE RawOf(id)
      bytes == IF copied THEN SourceLine(f.path) \o raw ELSE raw
      onserver == fmt = "imap" /\ f.kind = "imap"      \* the server copies it, with the flags it has there
  IN Sig(bytes, IF onserver THEN f.sflags ELSE FlagsOf(id), fmt)
RECURSIVE SeqFrom(_, _)
SeqFrom(S, fmt) == IF S = {} THEN <<>> ELSE LET id == CHOOSE z \in S : TRUE IN <<DeliveredAs(id, fmt)>> \o SeqFrom(S \ {id}, fmt)
SigSeq(S, fmt) == TLCEval(SeqFrom(S, fmt))

(* The items of the folder as recorded *)
ItemsOf(e) ==
  IF e.fmt = "mbox" THEN LET ch == FromChunks(e.raw) IN TLCEval([k \in 1..Len(ch) |-> <<NoNL(SubSeq(e.raw, ch[k].s, ch[k].e))>>])
  ELSE TLCEval([k \in 1..Len(e.items) |-> Sig(e.items[k].raw, e.items[k], e.fmt)])
Before(e) == IF e.out \in DOMAIN out THEN out[e.out] ELSE <<>>

Count(s, x) == Len(SelectSeq(s, LAMBDA y : y = x))
(* Without augmenting, the folder holds the matches and nothing else; else    *)
(* what it held and the matches.                                              *)
HoldsExactly(e, new) ==
  LET got == ItemsOf(e)
      old == Before(e)
      X == RangeOf(got) \cup RangeOf(new) \cup (IF e.aug = 1 THEN RangeOf(old) ELSE {})
  IN /\ \A x \in X :
          LET g == Count(got, x) n == Count(new, x) o == Count(old, x) IN
          IF e.aug = 1 THEN g >= o /\ g >= n /\ g <= o + n ELSE g = n
     /\ e.fmt # "maildir" \/ e.aug = 1 \/ \A k \in 1..Len(e.items) : e.items[k].sub = "new" => e.items[k].seen = 0

Deliver(e) == out' = With(out, e.out, ItemsOf(e))

(***************************************************************************)
(* Which of the user's files a run may create, change or remove: none but  *)
(* the message entries of the match folder.  A change is                   *)
(*   [path : components, what : "created" | "changed" | "removed", type]   *)
(***************************************************************************)
IsNumber(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : IsDigit(s[i])
Number(s) == IsNumber(s) \/ (Len(s) > 1 /\ s[Len(s)] = 46 /\ IsNumber(SubSeq(s, 1, Len(s) - 1)))
S_new == <<110, 101, 119>>
S_cur == <<99, 117, 114>>
S_tmp == <<116, 109, 112>>
IsPrefix1(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
MayTouch(e, c) ==
  /\ e.op = "fsearch"
  /\ IsPrefix1(e.outpath, c.path)
  /\ LET rest == SubSeq(c.path, Len(e.outpath) + 1, Len(c.path))
         made == c.what \in {"created", "replaced"} /\ c.type = "dir"
     IN CASE e.fmt = "imap" -> rest = <<>> /\ c.type = "imap"
          [] e.fmt = "mbox" -> rest = <<>> /\ c.type = "file"
          [] e.fmt = "mh" -> \/ Len(rest) = 1 /\ Number(rest[1]) /\ c.type # "dir"
                             \/ rest = <<>> /\ made
          [] e.fmt = "maildir" -> \/ Len(rest) = 2 /\ rest[1] \in {S_new, S_cur} /\ c.type # "dir"
                                  \/ Len(rest) = 1 /\ rest[1] \in {S_new, S_cur, S_tmp} /\ made
                                  \/ rest = <<>> /\ made
          [] OTHER -> FALSE
ForbiddenChanges(e) ==
  IF "diff" \in DOMAIN e THEN {c \in RangeOf(e.diff) : ~MayTouch(e, c)} ELSE {}
=============================================================================
