"""Out-of-tree build of /repo's current working tree.

The sources git knows about (tracked and untracked-but-not-ignored) are copied
to a scratch directory and built there, so /repo is never written to.
"""
import os, shutil, subprocess, sys

REPO = os.environ.get("VERIF_REPO", "/repo")
ENV = {"PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
       "LC_ALL": "C", "TZ": "UTC", "HOME": "/tmp"}
GENERATED = {"Makefile", "mairix", "version.h", "datescan.c", "datescan.h", "fromcheck.c",
             "fromcheck.h", "nvpscan.c", "nvpscan.h", "config.log"}


class BuildError(Exception):
    pass


def _files():
    r = subprocess.run(["git", "-c", "safe.directory=*", "-C", REPO, "ls-files", "-co", "--exclude-standard", "-z"],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode == 0 and r.stdout:
        return [f.decode() for f in r.stdout.split(b"\0") if f]
    out = []
    for d in ("", "dfasyn"):
        for f in os.listdir(os.path.join(REPO, d)):
            rel = os.path.join(d, f)
            if os.path.isfile(os.path.join(REPO, rel)) and not f.endswith(".o") and rel not in GENERATED:
                out.append(rel)
    return out


def build(dest, cc="gcc", cflags=None):
    """Build into dest; returns the path of the mairix binary."""
    os.makedirs(dest, exist_ok=True)
    for rel in _files():
        top = rel.split("/")[0]
        if top in ("test", "old_docs"):
            continue
        src = os.path.join(REPO, rel)
        if not os.path.isfile(src):
            continue
        dst = os.path.join(dest, rel)
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        shutil.copy2(src, dst)
    env = dict(ENV, CC=cc)
    over = ["CC=%s %s" % (cc, cflags)] if cflags else []
    log = os.path.join(dest, "vp-build.log")
    with open(log, "wb") as lf:
        for cmd in (["sh", "./configure"],
                    ["make", "datescan.c", "datescan.h", "fromcheck.c", "fromcheck.h", "nvpscan.c",
                     "nvpscan.h", "version.h"],
                    ["make", "-j8", "all"] + over):
            r = subprocess.run(cmd, cwd=dest, env=env, stdin=subprocess.DEVNULL, stdout=lf, stderr=lf)
            if r.returncode:
                with open(log, errors="replace") as f:
                    raise BuildError("build step %r failed:\n%s" % (cmd, f.read()[-3000:]))
    b = os.path.join(dest, "mairix")
    if not os.access(b, os.X_OK):
        raise BuildError("no mairix binary")
    return b


if __name__ == "__main__":
    print(build(sys.argv[1], *(sys.argv[2:])))
