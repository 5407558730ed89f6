"""Settings: rc files, environment and command lines over a fixed set of folders."""
import os, re, shutil, stat, subprocess

from . import foldgen
from .world import BASE_ENV, HANGS

MD = ["a", "b", "sub/c", "a:b", "~/d", "x$y", "b1"]
MH = ["h", "g", "sub/h", "mail"]
MB = ["m", "n", "sub/m", "l"]
ENVN = ["FOO", "BAR_1", "X9", "_", "foo"]


def bl(s):
    return list(s.encode("latin-1"))


class Setup:
    def __init__(self, r):
        self.r = r
        self.n = 0
        self.nodes = []
        self.files = {}      # path below the root -> content or None for a directory, or ("link", target)
        for b in ("b1", "b2", "home/mail"):
            for f in MD:
                for s in ("new", "cur", "tmp"):
                    self.dir("%s/%s/%s" % (b, f, s))
                for _ in range(r.choice([1, 1, 2])):
                    self.msg("%s/%s/%s/%d" % (b, f, r.choice(["new", "cur"]), self.n))
            for f in MH:
                self.dir("%s/%s" % (b, f))
                self.files["%s/%s/.mh_sequences" % (b, f)] = ""
                self.msg("%s/%s/%d" % (b, f, r.randint(1, 9)))
            for f in MB[:3]:
                self.msg("%s/%s" % (b, f), k=r.choice([1, 2]))
        for b in ("b1", "b2", "home/mail"):
            self.files[b + "/l"] = ("link", "other/lm")
        self.msg("other/lm", k=1)
        for d in ("cwd", "dbs", "home/sub"):
            self.dir(d)

    def dir(self, p):
        while p:
            self.files.setdefault(p, None)
            p = os.path.dirname(p)

    def msg(self, p, k=0):
        r = self.r
        self.n += 1
        w, th, day = "w%d" % r.randint(1, 5), r.randint(1, 6), r.randint(1, 28)
        m = "Subject: %s\nMessage-ID: <t%d.%d@x>\nReferences: <r%d@x>\nDate: %d Mar 2005 10:00:00 +0000\n\nbody\n" % (w, th, self.n, th, day)
        if k:
            m = "".join(foldgen.SEP + m.replace("@x>", "@x%d>" % 0) + "\n" for i in range(k)).replace("@x0>", "@x>")
        self.dir(os.path.dirname(p))
        self.files[p] = m
        self.meta = getattr(self, "meta", {})
        self.meta[p] = (w, th, day)


class Gen:
    def __init__(self, r):
        self.r = r
        self.env = {}
        for n in ENVN:
            if r.random() < 0.6:
                self.env[n] = r.choice(["a", "b1", "b2", "mail", "sub", "", "$FOO", "~/x", "maildir", "m", "h", "@R", "@R/b1", "a:b", "dbs"])

    def vary(self, s, home="@R/home"):
        """Another spelling of the value s (or nearly so)."""
        r = self.r
        if r.random() < 0.5:
            if s.startswith(home + "/") and r.random() < 0.7:
                s = "~" + s[len(home):]
            for n, v in self.env.items():
                if v and v in s and r.random() < 0.6:
                    i = s.index(v)
                    rest = s[i + len(v):]
                    s = s[:i] + ("${%s}" % n if (rest and (rest[0].isalnum() or rest[0] == "_")) and r.random() < 0.9 or r.random() < 0.4 else "$" + n) + rest
                    break
        k = r.random()
        if k < 0.04:
            s += "$UNSET_V"
        elif k < 0.08:
            s = "${UNSET_V}" + s
        elif k < 0.1:
            s += "$"
        return s

    def name(self, n):
        r = self.r
        k = r.random()
        n = n.upper() if k < 0.1 else n.capitalize() if k < 0.2 else n
        return r.choice(["", "", "", " ", "\t", "  "]) + n

    def folders(self, names, bases=("b1", "b2", "home/mail")):
        r = self.r
        out = []
        for x in r.sample(names, r.choice([1, 1, 2, 3])):
            x = x.replace(":", "\\:")
            if r.random() < 0.12:
                x = "@R/%s/%s" % (r.choice(bases), x)
            out.append(x)
        return ":".join(out)

    def base(self):
        return "@R/" + self.r.choice(["b1", "b1", "b2", "home/mail", "nowhere"])

    def db(self):
        return self.r.choice(["@R/dbs/1", "@R/dbs/1", "@R/dbs/2", "@R/home/db", "rel", "./rel2", "@R/home/sub/db"])

    def out(self):
        return self.r.choice(["out", "out", "o2", "@R/cwd/o", "./o3", "sub/o", ".o4", "@R/home/o"])

    def rc(self):
        """Lines of an rc file."""
        r = self.r
        L = []

        def line(n, v):
            L.append("%s=%s" % (self.name(n), self.vary(v)))
        if r.random() < 0.93:
            line("base", self.base())
            if r.random() < 0.1:
                line("base", self.base())
        if r.random() < 0.93:
            line("database", self.db())
            if r.random() < 0.1:
                line("database", self.db())
        if r.random() < 0.8:
            line("mfolder", self.out())
        md, mh, mb = list(MD), list(MH), list(MB)

        def take(pool):
            k = min(len(pool), r.choice([1, 1, 2]))
            s = [pool.pop(r.randrange(len(pool))) for _ in range(k)]
            s = [x.replace(":", "\\:") for x in s]
            return ":".join("@R/%s/%s" % (r.choice(["b1", "b2"]), x) if r.random() < 0.1 else x for x in s)
        for n, pool, p in (("maildir", md, 0.8), ("mh", mh, 0.4), ("mbox", mb, 0.4)):
            if r.random() < p:
                for _ in range(r.choice([1, 1, 2, 3])):
                    if pool:
                        L.append("%s=%s" % (self.name({"maildir": "folders", "mh": "mh_folders"}.get(n, n) if r.random() < 0.1 else n), self.vary(take(pool))))
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            line("omit", r.choice(["a", "b", "sub*", "sub/**", "h:m", "m", "*", "**"]))
        if r.random() < 0.6:
            line("mformat", r.choice(["maildir", "mh", "mbox", "raw", "excerpt", "MH", "Mbox", "RAW", "Maildir"]))
            if r.random() < 0.1:
                line("mformat", r.choice(["mh", "mbox", "raw"]))
        if r.random() < 0.25:
            L.append(self.name("sort=date+"))
        if r.random() < 0.25:
            L.append(self.name("follow_mbox_symlinks"))
        if r.random() < 0.15:
            L.append(self.name("nochecks"))
        r.shuffle(L)
        for _ in range(r.choice([0, 1, 3])):
            L.insert(r.randint(0, len(L)), r.choice(["", "   ", "# comment", "#maildir=b", "# base=/x", "##", "#", "\t", "#database=@R/dbs/9"]))
        return L

    def command(self, nwords):
        r = self.r
        e = {}
        if r.random() < 0.35:
            for n, f in (("MAIRIX_FOLDER_BASE", self.base), ("MAIRIX_DATABASE", self.db), ("MAIRIX_MFOLDER", self.out),
                         ("MAIRIX_MAILDIR_FOLDERS", lambda: self.folders(MD)), ("MAIRIX_MH_FOLDERS", lambda: self.folders(MH)),
                         ("MAIRIX_MBOXEN", lambda: self.folders(MB))):
                if r.random() < 0.35:
                    e[n] = f()
                    if r.random() < 0.1:
                        e[n] = self.vary(e[n])       # not expanded in the environment
        a = []
        if r.random() < 0.4:
            a.append([r.choice(["-f", "--rcfile"]), r.choice(["@R/rc2", "@R/rc2", "@R/rc2", "@R/rc3", "@R/norc"])])
        k = r.random()
        words = []
        if k < 0.45:
            for n in (["-p", "--purge"], ["-F", "--fast-index"], ["-Q", "--no-integrity-checks"], ["-v", "--verbose"]):
                if r.random() < 0.15:
                    a.append([r.choice(n)])
            if r.random() < 0.2:
                a.append(["-o", self.out()])
        elif k < 0.93:
            words = [r.choice(["~zzzqqqzzz", "w%d" % r.randint(1, 5), "~w%d" % r.randint(1, 5), "zzzqqqzzz"])]
            for n, p in ((["-t", "--threads"], 0.2), (["-a", "--augment"], 0.15), (["-r", "--raw-output"], 0.35), (["-H", "--force-hardlinks"], 0.2),
                         (["-Q"], 0.05)):
                if r.random() < p:
                    a.append([r.choice(n)])
            if ["-r"] not in a and ["--raw-output"] not in a and r.random() < 0.15:
                a.append([r.choice(["-x", "--excerpt-output"])])
            if r.random() < 0.35:
                a.append([r.choice(["-o", "--mfolder"]), self.out()])
            if r.random() < 0.15:
                words = ["--"] + words
        elif k < 0.96:
            a.append([r.choice(["-d", "--dump"])])
        elif k < 0.975:
            a.append([r.choice(["-h", "--help", "-V", "--version"])])
        elif k < 0.98:
            a.append([r.choice(["--unlock"])])
        if r.random() < 0.06 and not any(x[0] in ("-h", "--help", "-V", "--version") for x in a):
            a.append([r.choice(["-Z", "--bogus", "-", "---", "-tr", "--raw", "-R", "--purge=1", "-fx", "--Threads", "-T", "-P"])])
        r.shuffle(a)
        a = [y for x in a for y in x] + words
        if not words and r.random() < 0.03 and not {"-h", "--help", "-V", "--version"} & set(a):
            a.append(r.choice(["-f", "-o", "--mfolder", "--rcfile", "--force-hash-key-new-database"]))
        return {"env": e, "args": a}


def scenario(r):
    g = Gen(r)
    files = {"@R/home/.mairixrc": g.rc(), "@R/rc2": g.rc()}
    if r.random() < 0.5:
        files["@R/rc3"] = g.rc()
    if r.random() < 0.1:
        del files["@R/home/.mairixrc"]
    ops = []
    for i in range(r.choice([4, 6, 9])):
        c = g.command(5)
        c["files"] = {k: list(v) for k, v in files.items()}
        c["nl"] = r.random() < 0.8
        c["env"] = dict(g.env, **c["env"])
        ops.append(c)
        if r.random() < 0.2:
            k = r.choice(sorted(files))
            files[k] = g.rc()
        # often the same settings again, to search what was just indexed
        if "-f" not in c["args"] and r.random() < 0.6:
            s = g.command(5)
            s["env"] = dict(c["env"])
            s["files"], s["nl"] = {k: list(v) for k, v in files.items()}, c["nl"]
            ops.append(s)
    return {"seed": r.randint(0, 1 << 30), "ops": ops}


def snap(root):
    res = {}
    for base, dirs, files in os.walk(root):
        for x in dirs + files:
            p = os.path.join(base, x)
            st = os.lstat(p)
            res[p] = (stat.S_IFMT(st.st_mode), st.st_size if stat.S_ISREG(st.st_mode) else 0)
    return res


def run(scn, d, binary):
    import random
    s = Setup(random.Random(scn["seed"]))
    R = os.path.join(d, "R")
    os.mkdir(R)
    inode = {}
    for p in sorted(s.files):
        q, c = os.path.join(R, p), s.files[p]
        if c is None:
            os.makedirs(q, exist_ok=True)
        elif isinstance(c, tuple):
            os.symlink(os.path.join(R, c[1]), q)
        else:
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, "w") as f:
                f.write(c)
            inode[os.stat(q).st_ino] = q
    nodes = foldgen_nodes(R, s)
    ev = [{"op": "tree", "nodes": nodes}]
    sub = lambda x: x.replace("@R", R)
    virt = lambda x: x.replace(R, "/R")
    one = lambda x: re.sub("//+", "/", x)
    dbfiles = set()
    known = set("".join(map(chr, n["p"])).replace("/R", R, 1) for n in nodes if not n["d"])
    for o in scn["ops"]:
        for p in ("home/.mairixrc", "rc2", "rc3"):
            q = os.path.join(R, p)
            if "@R/" + p in o["files"]:
                with open(q, "w") as f:
                    t = "\n".join(sub(x) for x in o["files"]["@R/" + p])
                    f.write(t + ("\n" if o["nl"] else ""))
            elif os.path.exists(q):
                os.unlink(q)
        env = dict(BASE_ENV, HOME=os.path.join(R, "home"))
        env.update({k: sub(v) for k, v in o["env"].items()})
        args = [sub(x) for x in o["args"]]
        a = snap(R)
        try:
            p = subprocess.run([binary] + args, cwd=os.path.join(R, "cwd"), env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=20)
            rc, out, err = p.returncode, p.stdout.decode("latin-1"), p.stderr.decode("latin-1")
        except subprocess.TimeoutExpired:
            with HANGS.get_lock():
                HANGS.value += 1
            rc, out, err = 999, "", "timeout"
        b = snap(R)
        made = []
        new = [x for x in b if x not in a or (a[x] != b[x] and x not in dbfiles)]

        def key(x):
            n = os.path.basename(x)
            return (os.path.dirname(x), int(n) if n.isdigit() else 0, n)
        for x in sorted(new, key=key):
            st = os.lstat(x)
            src = []
            if stat.S_ISLNK(st.st_mode):
                src = [os.readlink(x)]
            elif stat.S_ISREG(st.st_mode):
                if st.st_ino in inode:
                    src = [inode[st.st_ino]]
                else:
                    with open(x, "rb") as f:
                        t = f.read().decode("latin-1")
                    if re.match(r"From mairix@|X-source-folder: ", t):
                        src = re.findall(r"^X-source-folder: (.*)$", t, re.M)
                    elif t.startswith("MX"):
                        dbfiles.add(x)
            made.append({"p": bl(virt(x)), "up": bl(virt(os.path.dirname(x))), "d": int(stat.S_ISDIR(st.st_mode)), "link": int(stat.S_ISLNK(st.st_mode)),
                         "src": [bl(virt(one(y))) for y in src]})
        gone = [x for x in a if x not in b]
        for x in gone:
            made.append({"p": bl(virt(x)), "up": [], "d": 2, "link": 0, "src": []})
        lines = out.split("\n")
        res = []
        for i, x in enumerate(lines):
            m = re.match(r"^mbox:(.*) \[\d+,\d+\)$", x)
            if (m or one(x) in known) and "-d" not in args and "--dump" not in args:
                res.append(bl(virt(one(m.group(1) if m else x))))
        ev.append({"op": "run", "files": [{"p": bl(virt(sub(k))), "lines": [bl(virt(sub(x))) for x in v]} for k, v in o["files"].items()],
                   "env": [[bl(k), bl(virt(sub(v)))] for k, v in sorted(o["env"].items())], "args": [bl(virt(x)) for x in args],
                   "home": bl("/R/home"), "cwd": bl("/R/cwd"), "rc": rc, "res": res, "made": made,
                   "text": " ".join(o["args"]), "err": virt(err)[:300]})
        if rc == 999:
            break
        # what a search made is removed again
        for x in sorted(new, key=len, reverse=True):
            if x not in dbfiles and x not in a:
                if os.path.isdir(x) and not os.path.islink(x):
                    shutil.rmtree(x, ignore_errors=True)
                elif os.path.lexists(x):
                    os.unlink(x)
    return {"ev": ev}


def foldgen_nodes(R, s):
    res = []
    seen = foldgen.nodes
    for base, dirs, files in os.walk(R, followlinks=True):
        for n in dirs + files:
            q = os.path.join(base, n)
            v = "/R" + q[len(R):]
            rel = os.path.relpath(os.path.realpath(q), os.path.realpath(R))
            w, th, day = s.meta.get(rel, ("", 0, 0))
            k = 0
            if os.path.isfile(q):
                with open(q) as f:
                    k = f.read().count(foldgen.SEP)
            res.append({"p": bl(v), "up": bl(os.path.dirname(v)), "n": bl(n), "d": int(os.path.isdir(q)), "link": int(os.path.islink(q)), "k": k,
                        "w": bl(w), "th": th, "day": day})
    res.append({"p": bl("/R"), "up": bl("/"), "n": bl("R"), "d": 1, "link": 0, "k": 0, "w": [], "th": 0, "day": 0})
    return res
