import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p("C01","A word search returns exactly the messages containing that word",
"After an index run, searching for a word, optionally restricted to any set of the fields To, Cc, From, Subject and body, returns exactly the messages in which one of those fields contains that word: no such message is missed and no other message is returned. Words are the maximal runs of letters, digits and underscores, compared without regard to case; in To, Cc and From the whole address (letters, digits and the characters + - . @ _) is a word as well.",
["inputs"],"every text of the five fields (folded headers, repeated To/Cc headers, words at the ends of fields, digits, underscores, 8-bit bytes, mixed case) and every word and field prefix searched for",
"The tests search a dozen fixed words in a few fixed messages; a wrong separator, a word lost at the end of a field or buffer, a case slip or a field mix-up on other texts is never sampled.",
["tok.c","db.c","rfc822.c","search.c","reader.c"],
[("splitting text into words","tok.c:tokenise_string, db.c:tokenise_message"),("header capture and unfolding","rfc822.c:data_to_rfc822, scan_status"),("lookup in the per-field word tables","search.c:match_string_in_table, reader.c")],
["mairix -r <expr> output"])
p("C02","MIME parts, transfer encodings and encoded headers are decoded before indexing",
"The words of every text/plain and text/html part of a message, at any depth of multipart or attached-message nesting and in any transfer encoding (7bit, 8bit, quoted-printable, base64, uuencoded), are found by a body search just as if they had been sent plainly, HTML markup is not indexed as text, encoded words in headers are found decoded, and the file name of each part marked as an attachment is found by the attachment-name search. Content of other kinds of part is not indexed as text.",
["inputs"],"every nesting of multipart/*, message/rfc822, text and non-text parts, every supported transfer encoding and spelling of its name, boundary syntax and parameter syntax, and every position of a word relative to line breaks of the encoding",
"The tests contain five fixed MIME messages; nesting, encodings, parameter spellings and line-break positions combine beyond any sample.",
["rfc822.c","nvp.c","nvp.nfa","tok.c","db.c"],
[("MIME walk","rfc822.c:do_multipart, do_body, do_attachment"),("transfer decoding","rfc822.c:unencode_data"),("RFC 2047 header words","rfc822.c, tok.c"),("HTML stripping","tok.c:tokenise_html_string"),("attachment names","rfc822.c, nvp.c")],
["mairix -r b:<word> / n:<name> / s:<word> output"])
p("C03","After an index run searches see exactly the mail that exists now",
"For Maildir and MH folders, whatever sequence of deliveries, deletions, moves, renames (flag changes), rewrites and index runs has gone before, a search made after an index run returns exactly the messages that exist at that moment and match, each exactly once, under its current path and with its current words and flags - the same answer an index built from scratch would give. An index run with nothing changed changes no answer.",
["histories"],"every history of message and folder creation, deletion, rename, move and rewrite, interleaved with normal, fast (-F, which may only miss rewrites that keep the path) and purging index runs",
"Tests run one or two index runs over one scripted history per folder format; the answer depends on the whole history held in the database.",
["db.c","dirscan.c","mairix.c","writer.c","reader.c"],
[("matching existing entries against the folder contents","db.c:update_database"),("dead marking","db.c:scan_maildir_flags, update_database"),("file enumeration","dirscan.c"),("loading the previous index","db.c:new_database_from_file"),("storing it","writer.c:write_database")],
["mairix -r output after each index run"],
[("entries","one per indexed message: path, time, size, flags, live or dead","db.c struct database"),("word tables","word -> set of entries","db.c toktable")])
p("C04","Purging removes vanished mail from the index and changes no search answer",
"Running the indexer with the purge option gives the same answers to every search, plain or threaded, as running it without, and after a purge the index holds no entry, and no searchable word, of a message that no longer exists. This holds for any number and position of vanished messages, for mbox and file-per-message folders alike, and however many purging and non-purging runs are mixed.",
["histories"],"every set of vanished messages (none, first, last, all, interleaved; whole mbox folders) and every mix of purging, non-purging and growing index runs",
"Tests purge once after deleting one fixed set per format and compare one dump.",
["db.c","tok.c","mbox.c","search.c"],
[("renumbering entries and rewriting word tables","db.c:cull_dead_messages, recode_encoding, recode_toktable"),("removing unused words from the hash tables","db.c, tok.c"),("mbox renumbering","mbox.c:cull_dead_mboxen"),("hiding vanished messages from searches","search.c")],
["mairix -r, mairix -t -r, mairix -d output"])
p("C05","Every message of an mbox folder is indexed separately and followed through edits",
"Each message of an mbox (or MMDF, or gzip/bzip2/xz-compressed mbox) folder is indexed as a message of its own whose reported byte range is exactly that message; after messages are appended, removed from the end or elsewhere, or the folder is replaced, truncated or removed, the next index run makes searches return exactly the messages now in the folder. Body lines that merely resemble separators do not split messages.",
["histories","inputs"],"every sequence of appends, truncations, deletions, rewrites, replacements and removals of mbox folders between index runs, every count and size of messages, and every separator variant",
"Tests index fixed mboxes once and remove one whole mbox; incremental re-scanning (intact-prefix search by checksums) depends on the history of edits.",
["mbox.c","fromcheck.nfa","db.c","md5.c","xzfile.c","search.c"],
[("separator recognition","fromcheck.nfa, mbox.c:looks_like_from_separator, find_next_separator"),("intact-prefix detection","mbox.c:build_mbox_lists, find_number_intact, check_message_contents"),("adding the tail","mbox.c:add_mbox_messages")],
["mairix -r output (mbox:path [start,end))"])
p("C06","Query expressions mean what their and/or/not structure says",
"For every query, the answer is the set of live messages selected by its structure: arguments are and-ed; within an argument '/' separates or-ed alternatives, ',' and-ed conditions, '~' negates one condition, and the letters before ':' say in which parts a word may occur (all headers and the body if there are none). The exit status is 0 if something matched and 1 if nothing did, and '-t', output format and match order do not change what matches.",
["inputs"],"every well-formed query built from words, field prefixes, negation, conjunction, disjunction and several arguments, against every assignment of words to messages",
"Tests evaluate some twenty fixed expressions; a precedence, accumulator-reset or negation error shows only in particular combinations.",
["search.c"],
[("expression evaluation","search.c:do_search"),("prefix letters","search.c:do_search")],
["mairix -r <expr>... output and exit status"])
p("C07","Substring and approximate word matches follow the stated error rule",
"'sub=' matches exactly the words that contain sub, '^sub=' exactly those that start with it, and 'sub=N' exactly those that contain sub with at most N missing, extra or different letters, in whichever fields are searched and without regard to case. '^sub=N' matches every word that starts with sub and only words that 'sub=N' matches. A pattern longer than the supported length is refused with an error and no result.",
["inputs"],"every pattern (1 to 31 characters), error count and word of any length",
"Tests try a handful of patterns on one word list; the bit-parallel automaton can go wrong for particular lengths, error counts or error positions.",
["search.c"],
[("bit-parallel approximate matcher","search.c:build_match_vector, substring_match_0..3, substring_match_general"),("use over word tables","search.c:match_substring_in_table, match_substring_in_table2")],
["mairix -r 'pat=N' output and exit status"])
p("C08","Thread searches return the whole thread of every match and nothing else",
"With the threads option the answer is every live message connected to a live matching message by a chain of shared message identifiers (Message-ID, In-Reply-To, References), and no others. This holds whatever the order in which messages were indexed, with duplicate or missing identifiers, with members in different folders and formats, and after messages of the thread were deleted or purged.",
["inputs","histories"],"every reference graph over messages, every indexing order and batching, every deletion and purge history",
"Tests check one thread indexed in one go; the equivalence-class computation and the numbering that survives purges depend on graph shape and history.",
["db.c","search.c","tok.c"],
[("equivalence classes over identifiers","db.c:compute_thread_ids, find_base, merge_bases"),("expansion at search time","search.c:do_search"),("identifier extraction","rfc822.c, tok.c:add_angled_terms")],
["mairix -t -r output"])
p("C09","Flag, size, path, message-id and attachment-name conditions are exact",
"F: selects exactly the messages whose current seen/replied/flagged state agrees with the condition, z: exactly those whose size in bytes lies strictly between the bounds (k and M meaning 1024 and 1024*1024), p: exactly those whose path contains the text, m: exactly the message with that Message-ID, n: exactly those with an attachment of that name. They combine with each other and with word conditions as conjunctions.",
["inputs"],"every message attribute value (flag sets, sizes around the bounds, paths, identifiers) in every folder format and every condition",
"Tests cover a few fixed bounds and flags on fixed files.",
["search.c","db.c","mbox.c","rfc822.c","dirscan.c"],
[("flag tables","search.c:find_flag_matches_in_table, db.c:scan_maildir_flags, rfc822.c:scan_status"),("size ranges","search.c:find_size_matches_in_table, parse_size_expr, parse_size_range"),("paths","search.c:match_substring_in_paths"),("message ids","search.c, db.c")],
["mairix -r output"])
p("C10","Date conditions select by the stated calendar interval",
"For every date expression (absolute in all documented spellings, relative to today, open-ended, or naming a whole day, month or year), the answer is exactly the messages whose Date header's calendar day lies in the interval the documentation gives for it, where for the start-end forms the start day itself is excluded. Messages are dated by a Date header of the form '[weekday,] day month year ...', with a two- or four-digit year.",
["inputs","configurations"],"every expression, every current date (month ends, leap years, year wrap-around) and every message date",
"Tests use three fixed messages' dates with absolute day expressions only; month names, periods, relative and defaulted years depend on the day the test happens to run.",
["dates.c","datescan.nfa","search.c","rfc822.c"],
[("expression scanning","datescan.nfa, dates.c:scan_date_expr, scan_date_string"),("range test","search.c:find_date_matches_in_table"),("Date header parsing","rfc822.c:parse_rfc822_date")],
["mairix -r d:<expr> output under a set clock"])
p("C11","The match folder holds exactly the matches, faithfully",
"After a search into a Maildir, MH or mbox match folder, that folder contains one item per matching message - with its full content, and with its seen/replied/flagged state where the format carries it - and nothing else; with the augment option the earlier contents are all kept and the new matches are all added. A search without augment leaves nothing from earlier searches, whatever its format, and the reported number of matches is the number delivered.",
["histories","inputs"],"every sequence of searches, plain and augmenting, with any match sets from any mix of source formats, into any match folder format, with indexing and purging in between",
"Tests do single searches into a fresh folder; leftovers, name collisions and cross-format copies need sequences.",
["search.c","mbox.c"],
[("clearing","search.c:clear_maildir_subfolder, clear_mh_folder, clear_mbox_folder"),("naming and linking","search.c:mk_maildir_path, mk_mh_path, try_copy_to_path, create_symlink, append_file_to_mbox, append_mboxmsg_to_mbox")],
["contents of the match folder after each search"])
p("C12","Indexing and searching never alter, lose or overwrite the user's mail",
"No index run, search or dump changes, removes, renames or overwrites any message or file of an indexed folder, or any other file outside the match folder and the database; a search asked to write into an indexed folder, by whatever spelling of its path, is refused with an error and does nothing. Clearing a match folder removes only message entries of that folder and never follows links into other folders.",
["histories","configurations"],"every configuration of folders, match folder paths (absolute, relative, via symlinks or '..'), formats and links, and every sequence of index runs and searches",
"Tests never look at the source folders after a run and never aim a search at an indexed folder.",
["mairix.c","search.c","dirscan.c"],
[("refusal","mairix.c:member_of"),("clearing only the match folder","search.c:clear_*"),("links instead of copies","search.c:create_symlink, try_copy_to_path"),("read-only access to mail","rfc822.c:create_ro_mapping, mbox.c")],
["full file system snapshot before and after each run; exit status"])
p("C13","At most one process uses a database at a time",
"However the runs of any number of mairix processes on one database overlap, no two of them ever have the database in use at the same time: a run that finds the database in use says so and exits with a failure status without reading or writing it. A run that ends - normally, on an error or by an interrupt - removes its own lock and never that of another process, and leaves no stray lock files behind; a forced unlock lets the next run proceed after a crash.",
["schedules","crash_points","fault_sequences"],"every interleaving of the file-system steps of several processes, with interrupts and kills at every step",
"Tests never run two processes at once.",
["dotlock.c","mairix.c"],
[("exclusive link of a private file to the lock name","dotlock.c:lock_database"),("release","dotlock.c:unlock_database, unlock_and_exit, mairix.c:handlesig")],
["lock file and temporary files, exit status and message of each process, order of their database accesses"],
[("lock file","exists iff a live process holds the database, or its holder crashed","<database>.lock")])
p("C14","An interrupted or failed index run never leaves a damaged database",
"If an index run is killed, interrupted or fails at any point, the database afterwards is either the one from before the run or the complete new one, and every later search and index run works normally on it (after a forced unlock if the process was killed). A run that ends successfully has stored the complete new database.",
["crash_points","fault_sequences"],"every point of an index run at which the process can die or a file operation can fail, for first and later index runs, growing and shrinking databases",
"Tests never interrupt a run or make a system call fail.",
["writer.c","mairix.c","reader.c","db.c"],
[("storing the database","writer.c:write_database, create_rw_mapping"),("signal handling","mairix.c:handlesig, dotlock.c:unlock_and_exit")],
["database file bytes and search answers after each injected crash"])
p("C15","Exactly the folders the configuration selects are indexed",
"The set of folders indexed is exactly the set of Maildir, MH and mbox folders under the base that the maildir, mh and mbox settings select and the omit setting does not: literal names, '...' for all folders below, wildcards * ? [..] within one path component, and in omit '*' within one component and '**' across components; a path starting with '/' is taken as it stands. In a selected Maildir or MH folder exactly the message files are indexed, every one of them.",
["configurations","inputs"],"every directory tree and every folder specification",
"Tests name single literal folders and one '...' case.",
["dirscan.c","glob.c","mairix.c","mbox.c"],
[("wildcard and recursive expansion","dirscan.c:glob_and_expand_paths, handle_wild, handle_single"),("wildcard matcher","glob.c:make_globber, is_glob_match"),("omit","glob.c:is_globber_array_match"),("folder recognition","dirscan.c:filter_is_maildir, filter_is_mh, child_stat, valid_mh_filename_p; mbox.c")],
["set of paths returned by a search after an index run"])
p("C16","Unusual or damaged mail never keeps other mail from being indexed",
"An empty, malformed, truncated, unreadable or vanished message, part or mbox folder never stops an index run or a search: the run ends normally and every other message is indexed and found, and so are the words of the intact parts of the damaged message: its header, if every line of it is well-formed, and each undamaged body part. No mail content makes mairix fail to terminate or end abnormally, given memory in proportion to the content and its nesting.",
["inputs","fault_sequences"],"every malformation of headers, MIME structure, encodings, mbox separators and compressed folders, in every position among good messages",
"Tests include a couple of odd messages and one corrupt header.",
["rfc822.c","mbox.c","db.c","dirscan.c","nvp.c","tok.c"],
[("tolerant parsing","rfc822.c:data_to_rfc822, do_multipart, unencode_data, nvp.c:make_nvp"),("skipping unreadable files","rfc822.c:make_rfc822, create_ro_mapping, dirscan.c"),("mbox recovery","mbox.c:build_mbox_lists, add_mbox_messages")],
["exit status of index runs and searches; answers for the good messages"])
p("C17","Settings are read from the rc file, environment and command line as documented",
"The settings in effect are those of the rc file (the one named with -f, else ~/.mairixrc), with repeated folder settings accumulating and $NAME, ${NAME} and ~ expanded, overridden by the MAIRIX_ environment variables and then by command-line options. Missing mandatory settings and unknown options are reported as errors with a non-zero exit status and nothing is written.",
["configurations"],"every combination of rc lines (comments, spacing, repetition, expansion), environment variables and options",
"Tests use one rc layout and no environment overrides.",
["mairix.c","expandstr.c","dirscan.c"],
[("rc parsing","mairix.c:parse_rc_file, copy_value, add_folders, parse_output_folder"),("expansion","expandstr.c:expand_string"),("colon lists","dirscan.c:split_on_colons")],
["folders indexed, database and match folder used, exit status"])
p("C18","IMAP folders are indexed and followed like local ones",
"With IMAP folders configured, after an index run searches return exactly the messages now on the server in the selected folders, with their words and dates, as new messages arrive and old ones are expunged; matches can be delivered to local match folders, and local and IMAP matches to a match folder on the server, with their full content (and, on the server, their flags). Folders that are missing, messages the server will not deliver and lost connections cost at most the messages concerned, until the next run. Apart from the match folder the server's mail is never changed and not marked as read, and a search into an indexed IMAP folder is refused.",
["histories","inputs"],"every history of arrivals, expunges and folder changes on the server and every mix of IMAP and local folders",
"There are no tests of IMAP at all.",
["imap.c","imapinterface.c","db.c","search.c"],
[("folder and message listing","imapinterface.c:build_imap_message_list"),("fetching","imapinterface.c:make_rfc822_from_imap, imap_fetch_message_raw"),("protocol","imap.c"),("tracking by folder:uidvalidity:uid","db.c:update_database")],
["mairix -r output against a scripted server"])
p("C19","The stored index is exact at any size",
"Answers stay exact however many messages and distinct words the index holds and however they are distributed: words in one, few or all messages, adjacent or far apart, long words, many words with equal hash buckets, and indexes built in one run or grown over many. Storing, reloading, growing and purging the index repeatedly never changes an answer.",
["inputs","histories"],"every distribution of words over messages, number of messages and words, and batching of index runs",
"The test corpora have a dozen messages (one mbox test has more), so gaps between occurrences stay below the first encoding boundary and hash tables at their initial size mostly.",
["tok.c","db.c","writer.c","reader.c","hash.c"],
[("delta encoding of occurrence lists","tok.c:add_token_in_file, insert_index_on_encoding; reader.c:read_increment"),("hash tables that grow","tok.c:enlarge_toktable, add_token_in_file"),("storage layout","writer.c, reader.c"),("reloading","db.c:import_toktable, new_database_from_file")],
["mairix -r and mairix -d output"])
p("C20","No input makes mairix access memory out of bounds",
"For every mail content, configuration and query, mairix never reads or writes outside the objects it allocated.",
["inputs"],"every input","Tests run an uninstrumented build on a few inputs.",
["rfc822.c","tok.c","search.c","mbox.c"],[("length-bounded scanning","rfc822.c, nvp.c, tok.c")],["sanitizer reports"])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
