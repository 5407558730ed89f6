------------------------------ MODULE Settings ------------------------------
(* The settings in effect: from the lines of the rc file, the environment and *)
(* the command line, and what a run with them is to do.                       *)
(*                                                                            *)
(* A command is                                                               *)
(*   files : rc files, [p |-> path, lines |-> lines]                           *)
(*   env   : <<name, value>> pairs        args : arguments                    *)
(*   home  : the home directory           cwd : the current directory         *)
EXTENDS Folders

(* names, as bytes *)
N_base == <<98, 97, 115, 101>>
N_folders == <<102, 111, 108, 100, 101, 114, 115>>
N_maildir == <<109, 97, 105, 108, 100, 105, 114>>
N_mh_folders == <<109, 104, 95, 102, 111, 108, 100, 101, 114, 115>>
N_mh == <<109, 104>>
N_mbox == <<109, 98, 111, 120>>
N_omit == <<111, 109, 105, 116>>
N_mformat == <<109, 102, 111, 114, 109, 97, 116>>
N_mfolder == <<109, 102, 111, 108, 100, 101, 114>>
N_database == <<100, 97, 116, 97, 98, 97, 115, 101>>
N_follow_mbox_symlinks == <<102, 111, 108, 108, 111, 119, 95, 109, 98, 111, 120, 95, 115, 121, 109, 108, 105, 110, 107, 115>>
N_sort == <<115, 111, 114, 116>>
E_folder_base == <<77, 65, 73, 82, 73, 88, 95, 70, 79, 76, 68, 69, 82, 95, 66, 65, 83, 69>>
E_maildir_folders == <<77, 65, 73, 82, 73, 88, 95, 77, 65, 73, 76, 68, 73, 82, 95, 70, 79, 76, 68, 69, 82, 83>>
E_mh_folders == <<77, 65, 73, 82, 73, 88, 95, 77, 72, 95, 70, 79, 76, 68, 69, 82, 83>>
E_mboxen == <<77, 65, 73, 82, 73, 88, 95, 77, 66, 79, 88, 69, 78>>
E_mfolder == <<77, 65, 73, 82, 73, 88, 95, 77, 70, 79, 76, 68, 69, 82>>
E_database == <<77, 65, 73, 82, 73, 88, 95, 68, 65, 84, 65, 66, 65, 83, 69>>
Options == {
  [o |-> "rcfile", short |-> <<45, 102>>, long |-> <<45, 45, 114, 99, 102, 105, 108, 101>>],
  [o |-> "threads", short |-> <<45, 116>>, long |-> <<45, 45, 116, 104, 114, 101, 97, 100, 115>>],
  [o |-> "augment", short |-> <<45, 97>>, long |-> <<45, 45, 97, 117, 103, 109, 101, 110, 116>>],
  [o |-> "mfolder", short |-> <<45, 111>>, long |-> <<45, 45, 109, 102, 111, 108, 100, 101, 114>>],
  [o |-> "purge", short |-> <<45, 112>>, long |-> <<45, 45, 112, 117, 114, 103, 101>>],
  [o |-> "dump", short |-> <<45, 100>>, long |-> <<45, 45, 100, 117, 109, 112>>],
  [o |-> "raw", short |-> <<45, 114>>, long |-> <<45, 45, 114, 97, 119, 45, 111, 117, 116, 112, 117, 116>>],
  [o |-> "excerpt", short |-> <<45, 120>>, long |-> <<45, 45, 101, 120, 99, 101, 114, 112, 116, 45, 111, 117, 116, 112, 117, 116>>],
  [o |-> "hard", short |-> <<45, 72>>, long |-> <<45, 45, 102, 111, 114, 99, 101, 45, 104, 97, 114, 100, 108, 105, 110, 107, 115>>],
  [o |-> "nocheck", short |-> <<45, 81>>, long |-> <<45, 45, 110, 111, 45, 105, 110, 116, 101, 103, 114, 105, 116, 121, 45, 99, 104, 101, 99, 107, 115>>],
  [o |-> "fast", short |-> <<45, 70>>, long |-> <<45, 45, 102, 97, 115, 116, 45, 105, 110, 100, 101, 120>>],
  [o |-> "verbose", short |-> <<45, 118>>, long |-> <<45, 45, 118, 101, 114, 98, 111, 115, 101>>],
  [o |-> "version", short |-> <<45, 86>>, long |-> <<45, 45, 118, 101, 114, 115, 105, 111, 110>>],
  [o |-> "help", short |-> <<45, 104>>, long |-> <<45, 45, 104, 101, 108, 112>>],
  [o |-> "unlock", short |-> <<45, 45, 117, 110, 108, 111, 99, 107>>, long |-> <<45, 45, 117, 110, 108, 111, 99, 107>>],
  [o |-> "hash", short |-> <<45, 45, 102, 111, 114, 99, 101, 45, 104, 97, 115, 104, 45, 107, 101, 121, 45, 110, 101, 119, 45, 100, 97, 116, 97, 98, 97, 115, 101>>, long |-> <<45, 45, 102, 111, 114, 99, 101, 45, 104, 97, 115, 104, 45, 107, 101, 121, 45, 110, 101, 119, 45, 100, 97, 116, 97, 98, 97, 115, 101>>]}
Formats == {[f |-> "maildir", n |-> <<109, 97, 105, 108, 100, 105, 114>>], [f |-> "mh", n |-> <<109, 104>>], [f |-> "mbox", n |-> <<109, 98, 111, 120>>], [f |-> "raw", n |-> <<114, 97, 119>>], [f |-> "excerpt", n |-> <<101, 120, 99, 101, 114, 112, 116>>]}
S_rc == <<47, 46, 109, 97, 105, 114, 105, 120, 114, 99>>
S_dateplus == <<100, 97, 116, 101, 43>>

(***************************************************************************)
(* Lines of an rc file                                                     *)
(***************************************************************************)
NoBlank(s) == LET i == NextNotIn(s, 1, {32, 9}) IN IF i = 0 THEN <<>> ELSE SubSeq(s, i, Len(s))
IsComment(s) == s # <<>> /\ s[1] = 35
(* [name, value] of a line; names are compared without regard to case *)
Parsed(s0) ==
  LET s == NoBlank(s0)
      e == NextIn(s, 1, {61})
  IN IF IsComment(s) THEN [name |-> <<>>, value |-> <<>>]
     ELSE IF e = 0 THEN [name |-> LowerS(s), value |-> <<>>]
     ELSE [name |-> LowerS(SubSeq(s, 1, e - 1)), value |-> SubSeq(s, e + 1, Len(s))]

Has(env, n) == \E i \in 1..Len(env) : env[i][1] = n
Value(env, n) == IF Has(env, n) THEN env[CHOOSE i \in 1..Len(env) : env[i][1] = n][2] ELSE <<>>

(* $NAME, ${NAME}; an unset variable is replaced by nothing, and what a        *)
(* variable holds is not expanded again                                        *)
EnvChars == (48..57) \cup (65..90) \cup (97..122) \cup {95}
RECURSIVE Vars(_, _)
Vars(s, env) ==
  LET d == NextIn(s, 1, {36}) IN
  IF d = 0 THEN s
  ELSE LET braced == d < Len(s) /\ s[d + 1] = 123
           close == NextIn(s, d + 2, {125})
           after == IF braced THEN (IF close = 0 THEN Len(s) + 1 ELSE close + 1)
                    ELSE LET k == NextNotIn(s, d + 1, EnvChars) IN IF k = 0 THEN Len(s) + 1 ELSE k
           n == IF braced THEN SubSeq(s, d + 2, (IF close = 0 THEN Len(s) ELSE close - 1)) ELSE SubSeq(s, d + 1, after - 1)
       IN SubSeq(s, 1, d - 1) \o Value(env, n) \o Vars(SubSeq(s, after, Len(s)), env)
Expand(s, env, home) ==
  IF Len(s) >= 2 /\ s[1] = 126 /\ s[2] = 47 THEN home \o Vars(SubSeq(s, 2, Len(s)), env) ELSE Vars(s, env)

(***************************************************************************)
(* The command line: options up to the first argument that is none, or --   *)
(***************************************************************************)
Unset == [set |-> FALSE, v |-> <<>>]
Set(v) == [set |-> TRUE, v |-> v]
NoOpts == [err |-> FALSE, info |-> FALSE, rcfile |-> Unset, mfolder |-> Unset, threads |-> FALSE, augment |-> FALSE, dump |-> FALSE,
           raw |-> FALSE, excerpt |-> FALSE, hard |-> FALSE, rest |-> <<>>]
RECURSIVE ParseArgs(_, _, _)
ParseArgs(a, i, r) ==
  IF i > Len(a) THEN r
  ELSE LET m == {x \in Options : a[i] = x.short \/ a[i] = x.long}
           o == IF m = {} THEN "none" ELSE (CHOOSE x \in m : TRUE).o
           On(f) == ParseArgs(a, i + 1, [r EXCEPT ![f] = TRUE])
           With1(f) == IF i = Len(a) THEN [r EXCEPT !.err = TRUE] ELSE ParseArgs(a, i + 2, IF f = "hash" THEN r ELSE [r EXCEPT ![f] = Set(a[i + 1])])
       IN IF a[i] = <<45, 45>> THEN [r EXCEPT !.rest = SubSeq(a, i + 1, Len(a))]
          ELSE IF o \in {"rcfile", "mfolder", "hash"} THEN With1(o)
          ELSE IF o \in {"threads", "augment", "dump", "raw", "excerpt", "hard"} THEN On(o)
          ELSE IF o \in {"help", "version"} THEN On("info")
          ELSE IF o # "none" THEN ParseArgs(a, i + 1, r)
          ELSE IF a[i] # <<>> /\ a[i][1] = 45 THEN [r EXCEPT !.err = TRUE]
          ELSE [r EXCEPT !.rest = SubSeq(a, i, Len(a))]

(***************************************************************************)
(* The settings in effect                                                  *)
(***************************************************************************)
LinesOf(c, o) ==
  LET p == IF o.rcfile.set THEN o.rcfile.v ELSE c.home \o S_rc
      M == {i \in 1..Len(c.files) : c.files[i].p = p}
  IN IF M = {} THEN [ok |-> FALSE, lines |-> <<>>] ELSE [ok |-> TRUE, lines |-> c.files[CHOOSE i \in M : TRUE].lines]

Effective(c, o) ==
  LET L == LinesOf(c, o)
      P == TLCEval([i \in 1..Len(L.lines) |-> Parsed(L.lines[i])])
      Of(ns) == LET S == SelectSeq(P, LAMBDA x : x.name \in ns) IN [i \in 1..Len(S) |-> Expand(S[i].value, c.env, c.home)]
      Last(n) == LET v == Of({n}) IN IF v = <<>> THEN Unset ELSE Set(v[Len(v)])
      Over(x, e) == IF Has(c.env, e) THEN Set(Value(c.env, e)) ELSE x
      Lst(ns, e) == IF Has(c.env, e) THEN <<Value(c.env, e)>> ELSE Of(ns)
      fs == LET v == Of({N_mformat})
                ok == SelectSeq(v, LAMBDA x : \E f \in Formats : f.n = LowerS(x))
            IN IF ok = <<>> THEN "maildir" ELSE (CHOOSE f \in Formats : f.n = LowerS(ok[Len(ok)])).f
  IN [ok |-> L.ok,
      base |-> Over(Last(N_base), E_folder_base),
      database |-> Over(Last(N_database), E_database),
      mfolder |-> IF o.mfolder.set THEN o.mfolder ELSE Over(Last(N_mfolder), E_mfolder),
      maildir |-> Lst({N_maildir, N_folders}, E_maildir_folders),
      mh |-> Lst({N_mh, N_mh_folders}, E_mh_folders),
      mbox |-> Lst({N_mbox}, E_mboxen),
      omit |-> Of({N_omit}),
      follow |-> IF \E i \in 1..Len(P) : P[i].name = N_follow_mbox_symlinks THEN 1 ELSE 0,
      fmt |-> IF o.raw THEN "raw" ELSE IF o.excerpt THEN "excerpt" ELSE fs,
      sorted |-> \E i \in 1..Len(P) : P[i].name = N_sort /\ P[i].value = S_dateplus]

(* doubled slashes of a path mean nothing *)
Norm(p) == LET keep == {i \in 1..Len(p) : ~(p[i] = SLASH /\ i < Len(p) /\ p[i + 1] = SLASH)}
               idx == SelectSeq([i \in 1..Len(p) |-> i], LAMBDA i : i \in keep)
           IN TLCEval([i \in 1..Len(idx) |-> p[idx[i]]])
AbsPath(p, cwd) ==
  IF p # <<>> /\ p[1] = SLASH THEN Norm(p)
  ELSE IF StartsWith(p, <<46, 47>>) THEN cwd \o SubSeq(p, 2, Len(p)) ELSE Sub(cwd, p)
OutPath(s, cwd) == IF s.mfolder.v # <<>> /\ (s.mfolder.v[1] = SLASH \/ StartsWith(s.mfolder.v, <<46, 47>>)) THEN AbsPath(s.mfolder.v, cwd)
                   ELSE Norm(Sub(s.base.v, s.mfolder.v))

(* the directory a file is to be made in is there *)
InDir(p) == \E x \in tree : x.d = 1 /\ x.p = SubSeq(p, 1, LastSlash(p) - 1)
(* What the command is to do: dbs is the set of paths where there is a database *)
Doing(c, dbs) ==
  LET o == ParseArgs(c.args, 1, NoOpts)
      s == Effective(c, o)
      db == AbsPath(s.database.v, c.cwd)
      search == o.rest # <<>> \/ o.threads \/ o.augment
      R(k) == [do |-> k, s |-> s, o |-> o, db |-> db, out |-> IF s.mfolder.set THEN OutPath(s, c.cwd) ELSE <<>>]
  IN IF o.err THEN [do |-> "error"]
     ELSE IF o.info THEN [do |-> "info"]
     ELSE IF ~s.ok \/ ~s.base.set \/ ~s.database.set THEN [do |-> "error"]
     ELSE IF ~InDir(db) THEN [do |-> "error"]
     ELSE IF o.dump THEN (IF db \in dbs THEN R("dump") ELSE [do |-> "error"])
     ELSE IF search THEN (IF ~s.mfolder.set /\ s.fmt \notin {"raw", "excerpt"} THEN [do |-> "error"]
                          ELSE IF db \notin dbs THEN [do |-> "error"] ELSE R("search"))
     ELSE IF s.maildir = <<>> /\ s.mh = <<>> /\ s.mbox = <<>> THEN [do |-> "error"]
     ELSE R("index")
=============================================================================
