"""A scratch mail store plus the mairix binary under test."""
import multiprocessing, os, re, subprocess

HANGS = multiprocessing.get_context("fork").Value("i", 0)      # runs that did not end, over all workers

BASE_ENV = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "TZ": "UTC"}


class World:
    def __init__(self, d, binary, **rc):
        self.d, self.bin = d, binary
        self.base = os.path.join(d, "m")
        self.db = os.path.join(d, "db")
        self.rcfile = os.path.join(d, "rc")
        os.makedirs(self.base, exist_ok=True)
        self.env = dict(BASE_ENV, HOME=d)
        self.hash_key = rc.pop("hash_key", 1)
        self.set_rc(**rc)

    def set_rc(self, extra="", **rc):
        v = {"base": self.base, "database": self.db}
        v.update(rc)
        self.rc = v
        with open(self.rcfile, "w", encoding="latin-1") as f:
            for k, x in v.items():
                if x is not None:
                    f.write("%s=%s\n" % (k, x))
            f.write(extra)

    def p(self, *parts):
        return os.path.join(self.base, *parts)

    def maildir(self, name):
        for s in ("new", "cur", "tmp"):
            os.makedirs(self.p(name, s), exist_ok=True)

    def mh(self, name):
        os.makedirs(self.p(name), exist_ok=True)
        open(self.p(name, ".mh_sequences"), "w").close()

    def put(self, rel, data, mtime=None):
        if isinstance(data, str):
            data = data.encode("latin-1")
        fn = self.p(rel)
        os.makedirs(os.path.dirname(fn), exist_ok=True)
        with open(fn, "wb") as f:
            f.write(data)
        if mtime is not None:
            os.utime(fn, (mtime, mtime))
        return fn

    def run(self, args, timeout=20, env=None, rc=True):
        cmd = [self.bin] + (["-f", self.rcfile] if rc else []) + [x.encode("latin-1") if isinstance(x, str) else x for x in args]
        e = dict(self.env)
        e.update(env or {})
        try:
            r = subprocess.run(cmd, cwd=self.d, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=timeout)
            return r.returncode, r.stdout, r.stderr
        except subprocess.TimeoutExpired:
            with HANGS.get_lock():
                HANGS.value += 1
            subprocess.run(["rm", "-f", self.db + ".lock"])
            return 999, b"", b"timeout"

    def index(self, *args, **kw):
        return self.run(list(args) + ["--force-hash-key-new-database", str(self.hash_key)], **kw)

    def unlock_stale(self):
        """After a crash of the code under test, clear the lock so that the history can go on."""
        try:
            os.unlink(self.db + ".lock")
        except OSError:
            pass

    def strip(self, path):
        b = self.base + "/"
        return path[len(b):] if path.startswith(b) else path

    def stripline(self, l):
        m = re.match(r"^mbox:(.*) \[(\d+),(\d+)\)$", l)
        if m:
            return "mbox:%s [%s,%s)" % (self.strip(m.group(1)), m.group(2), m.group(3))
        return self.strip(l)

    def raw(self, *args, **kw):
        """Raw search; returns (exit code, list of stripped result lines)."""
        rc, out, err = self.run(["-r"] + list(args), **kw)
        lines = []
        for l in out.decode("latin-1").split("\n"):
            if l != "":
                lines.append(self.stripline(l))
        return rc, lines, err.decode("latin-1")


def msg(to=None, cc=None, frm=None, subject=None, date=None, mid=None, irt=None, refs=None, body="", extra=""):
    h = []
    for n, v in (("To", to), ("Cc", cc), ("From", frm), ("Subject", subject), ("Date", date), ("Message-ID", mid),
                 ("In-Reply-To", irt), ("References", refs)):
        if v is not None:
            h.append("%s: %s\n" % (n, v))
    return "".join(h) + extra + "\n" + body
