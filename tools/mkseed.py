#!/usr/bin/env python3
"""mkseed.py ID: build and confirm a planted bug from /tmp/seeds/ID.py (a module with PROP, NEEDS, BREAKS,
EDITS = [(file, old, new)], DEMO).  Confirms: applies, compiles, passes the stable tests, demo passes without and fails with."""
import importlib.util, json, os, shutil, subprocess, sys
ID = sys.argv[1]
PRE = """#!/bin/bash
# Demonstration; run in the source directory after the build.  Works in a scratch directory of its own.
M=$PWD/mairix; here=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$T"' EXIT
export LC_ALL=C TZ=UTC HOME=$T; cd "$T" || exit 2
md() { mkdir -p "$1/new" "$1/cur" "$1/tmp"; }
mh() { mkdir -p "$1"; : > "$1/.mh_sequences"; }
rc() { { echo "base=$T/m"; echo "database=$T/db"; for l in "$@"; do echo "$l"; done; } > "$T/rc"; mkdir -p "$T/m"; }
ix() { "$M" -f "$T/rc" --force-hash-key-new-database 1 "$@" 2>"$T/err"; }
q() { "$M" -f "$T/rc" -r "$@" 2>"$T/err" | sed "s,$T/m/,," | LC_ALL=C sort | tr '\\n' ' '; }
fail() { echo "FAIL: $*"; exit 1; }
same() { [ "$1" = "$2" ] || fail "got <$1>, expected <$2>"; }
"""
spec = importlib.util.spec_from_file_location("s", "/tmp/seeds/%s.py" % ID)
m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
W = "/tmp/seedwork-%s" % ID
subprocess.run(["rm", "-rf", W]); subprocess.check_call(["cp", "-a", "/repo", W])
def sh(c, **k): return subprocess.run(c, shell=True, cwd=W, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, **k)
out = "/verif/seeded/" + ID
os.makedirs("/tmp/seeddemo/" + ID, exist_ok=True)
demo = "/tmp/seeddemo/%s/demo.sh" % ID
open(demo, "w").write(PRE + m.DEMO)
os.chmod(demo, 0o755)
for n, c in getattr(m, "FILES", {}).items():
    open("/tmp/seeddemo/%s/%s" % (ID, n), "w").write(c); os.chmod("/tmp/seeddemo/%s/%s" % (ID, n), 0o755)
sh("touch *.c; make -s mairix")
r = sh("timeout 300 bash " + demo)
if r.returncode: print("DEMO FAILS ON UNCHANGED TREE", r.stdout.decode()[-1500:]); subprocess.run(["rm", "-rf", W]); sys.exit(1)
for f, a, b in m.EDITS:
    s = open(W + "/" + f).read()
    n = s.count(a)
    if n != 1: print("EDIT MATCHES", n, "TIMES:", f, a); subprocess.run(["rm", "-rf", W]); sys.exit(1)
    open(W + "/" + f, "w").write(s.replace(a, b))
r = sh("touch *.c; make -s mairix 2>&1 | grep -iE 'error' ; test -x mairix && make -q mairix")
if b"error" in r.stdout: print("BUILD", r.stdout.decode()[-1500:]); sys.exit(1)
r = sh("timeout 300 bash " + demo)
if r.returncode == 0: print("DEMO PASSES WITH THE PATCH", r.stdout.decode()[-1500:]); subprocess.run(["rm", "-rf", W]); sys.exit(1)
print("demo with patch:", r.returncode, r.stdout.decode()[-300:].strip())
# tests (the runner of /opt/vp works on /repo; run the suite's own way here)
t = sh("""export LOCPATH=/opt/vp/locale LANG=en_US.UTF-8 LC_ALL=en_US.UTF-8 HOME=/root TZ=UTC; cd test
rm -rf ./*.status ./*.data; make distclean >/dev/null 2>&1; make message-preparations >/dev/null 2>&1
for spec in *.test-spec; do t=${spec%.test-spec}; timeout -k 5 60 make "$t.status" >/dev/null 2>&1 </dev/null
[ "$(cat "$t.status" 2>/dev/null)" = passed ] || echo "FAILED $t"; done""")
txt = t.stdout.decode()
bad = [l for l in txt.splitlines() if l.startswith("FAILED")]
if bad: print("TESTS:", bad)
diff = subprocess.run(["git", "-C", W, "diff", "--", "*.c", "*.h", "*.nfa", "*.l", "*.y"], stdout=subprocess.PIPE).stdout
os.makedirs(out, exist_ok=True)
open(out + "/patch.diff", "wb").write(diff)
for f in os.listdir("/tmp/seeddemo/" + ID): shutil.copy("/tmp/seeddemo/%s/%s" % (ID, f), out)
json.dump({"property": m.PROP, "needs": m.NEEDS, "what_it_breaks": m.BREAKS}, open(out + "/meta.json", "w"), indent=1)
print("tests:", "OK" if not bad else "BAD")
if bad: subprocess.run(["rm", "-rf", W, out]); sys.exit(1)
if len(sys.argv) > 2 and sys.argv[2] == "nocheck": sys.exit(0)
e = dict(os.environ, VERIF_REPO=W)
c = subprocess.run(["/verif/check", m.PROP], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
v = [l for l in c.stdout.decode().splitlines() if l.startswith("VIOLATION")]
print("check:", c.returncode, v or c.stdout.decode()[-500:])
subprocess.run(["rm", "-rf", W])
