"""Trees of folders and settings selecting some of them, run on the real program and recorded for TFolders."""
import gzip, os, re, shutil

from .world import World

MSG = "From: a@b.cc\nSubject: hi\n\nfoo\n"
SEP = "From a@b.cc Mon Jan  1 12:34:56 2001\n"
NAMES = ["a", "ab", "abc", "b", "b1", "b2", "foo", "foobar", "fo", "spam", "spam2005", "2005", "2006", "12", "x.y", "x.z", ".h", ".hb",
         "foo*", "q?", "A", "B1", "a-b", "z]", "a:b", "c", "cc", "ca", "bulk", "lists", "inbox", "x y", "é".encode("utf-8").decode("latin-1"), "k.gz", "..a", "a...",
         "z", "zoo", "baz", "0", "9x", "Z", "aZ", "x0"]
MARKS = [".xmhcache", ".mh_sequences", ".sylpheed_cache", ".sylpheed_mark", ".claws_cache", ".claws_mark", ".marks", ".overview", "cmeta",
         "summary", ".mew-summary", "index"]
MBNAMES = ["mb", "mb1", "mb2", "jan", "feb", "Jan", "m.gz", "n.gz", "m-1", ".mb", "spam", "spam2", "foo", "a", "b", "m:x", "2005"]
MHFILES = ["1", "2", "3", "10", "007", "4.", "5.", "1x", "x1", "1..", ".1", "-1", "+2", "1,", "", "9 ", "a", "1.2"]
MDFILES = ["1", "m1:2,S", "m2:2,", ".x", "..x", "a b", "1.2.h:2,RS", "foo", ",", "x" * 200]


class Tree:
    def __init__(self, r):
        self.r = r
        self.dirs, self.files = {"": "plain"}, {}       # rel -> kind ; rel -> (content, mbox messages)
        self.links = {}
        self.ops = []
        self.absp = r.choice([0.1, 0.1, 0.1, 0.7])       # how often absolute paths are used

    def free(self, rel):
        return rel not in self.dirs and rel not in self.files and rel not in self.links

    def mkdir(self, rel, kind):
        r = self.r
        self.dirs[rel] = kind
        self.ops.append(["dir", rel])
        if "maildir" in kind:
            for s in ("new", "cur", "tmp"):
                self.dirs[rel + "/" + s] = "part"
                self.ops.append(["dir", rel + "/" + s])
            for _ in range(r.choice([0, 1, 1, 2, 3])):
                self.mdfile(rel)
            if r.random() < 0.1:
                d = rel + "/cur/" + r.choice(["sub", "12"])
                self.dirs[d] = "part"
                self.ops.append(["dir", d])
        elif "almost" in kind:      # looks like a Maildir but is not one
            miss = r.choice(["new", "cur", "tmp"])
            for s in ("new", "cur", "tmp"):
                if s != miss:
                    self.dirs[rel + "/" + s] = "part"
                    self.ops.append(["dir", rel + "/" + s])
            if r.random() < 0.5:
                self.file(rel + "/" + miss, MSG, 0)
            s = r.choice([x for x in ("new", "cur", "tmp") if x != miss])
            self.file(rel + "/" + s + "/1", MSG, 0)
        if "mh" in kind:
            self.file(rel + "/" + r.choice(MARKS), "", 0)
            for _ in range(r.choice([0, 1, 2, 3])):
                self.mhfile(rel)
        elif "nomark" in kind:
            for _ in range(2):
                self.mhfile(rel)
            m = rel + "/" + r.choice(MARKS)
            if r.random() < 0.5 and self.free(m):
                self.dirs[m] = "part"
                self.ops.append(["dir", m])

    def file(self, rel, content, k):
        if self.free(rel):
            self.files[rel] = (content, k)
            self.ops.append(["file", rel, content, k])

    def mdfile(self, d):
        n = self.r.choice(MDFILES)
        s = self.r.choice(["new", "cur", "cur", "tmp"])
        if len(n) > 100 and self.r.random() < 0.9:
            n = "1"
        self.file("%s/%s/%s" % (d, s, n), MSG, 0)
        if self.r.random() < 0.1:
            self.file(d + "/" + self.r.choice(["loose", "1"]), MSG, 0)

    def mhfile(self, d):
        n = self.r.choice(MHFILES)
        if n:
            self.file(d + "/" + n, MSG, 0)

    def places(self):
        return [d for d, k in self.dirs.items() if k != "part"]

    def grow(self):
        r = self.r
        k = r.random()
        up = r.choice(self.places())
        if up.count("/") > 2:
            up = ""
        pre = up + "/" if up else ""
        if k < 0.55:
            n = r.choice(NAMES)
            if up and "mh" in self.dirs[up] and re.match(r"^\d+\.?$", n):
                return
            if self.free(pre + n):
                self.mkdir(pre + n, r.choice(["plain", "maildir", "maildir", "mh", "mh", "maildir mh", "almost", "nomark"]))
        elif k < 0.85:
            n = r.choice(MBNAMES)
            if re.match(r"^\d+\.?$", n) and up and self.dirs[up] != "plain":
                return
            if self.free(pre + n):
                c = r.choice([0, 1, 1, 1, 2])
                self.file(pre + n, (SEP + MSG + "\n") * c if c else r.choice(["", "junk\n", MSG]), c)
        elif k < 0.92:
            tgt = [x for x in self.places() if x and not (up + "/").startswith(x + "/") and not any(l == x or l.startswith(x + "/") for l in self.links)]
            n = r.choice(["ln", "ln1", "foo", "lists"])
            if tgt and self.free(pre + n):
                t = r.choice(tgt)
                # a link to a directory that holds no link itself and is not above it: no loops
                self.links[pre + n] = t
                self.ops.append(["link", pre + n, t])
        else:
            tgt = [f for f, c in self.files.items() if c[1]]
            n = r.choice(["lm", "lm1", "foo"])
            if tgt and self.free(pre + n):
                t = r.choice(tgt)
                self.links[pre + n] = t
                self.ops.append(["link", pre + n, t])

    def shrink(self):
        r = self.r
        k = r.random()
        if k < 0.6 and self.files:
            f = r.choice(sorted(self.files))
            del self.files[f]
            self.ops.append(["rm", f])
        elif k < 0.8:
            ds = [d for d, k in self.dirs.items() if d and k != "part"]
            if ds:
                d = r.choice(ds)
                for x in (self.dirs, self.files, self.links):
                    for y in [y for y in x if y == d or y.startswith(d + "/")]:
                        del x[y]
                self.ops.append(["rm", d])
        else:
            ds = [d for d, k in self.dirs.items() if "maildir" in k or "mh" in k]
            if ds:
                d = r.choice(ds)
                if "maildir" in self.dirs[d]:
                    self.mdfile(d)
                else:
                    self.mhfile(d)

    # ---- settings ----
    def wild(self, n):
        """A pattern, usually one that matches n."""
        r = self.r
        n = list(n)
        out = []
        for c in n:
            k = r.random()
            if k < 0.5:
                out.append(c if c not in "*?[" else "?")
            elif k < 0.65:
                out.append("?")
            elif k < 0.8:
                out.append(self.cls(c))
            elif k < 0.9:
                out.append("*")
            else:
                out.append(r.choice(["*", "", c, "x"]))
        if r.random() < 0.4:
            i = r.randint(0, len(out))
            out = out[:i] + ["*"]
        if r.random() < 0.2:
            out.insert(r.randint(0, len(out)), "*")
        s = "".join(out)
        return re.sub(r"\*\*+", "*", s) or "*"

    def cls(self, c):
        r = self.r
        k = r.random()
        if not c.isalnum() or ord(c) > 127:
            return {"]": r.choice(["[]]", "[]x]"]), "-": r.choice(["[-]", "[x-]"]), "/": "/"}.get(c, "[" + c + "]" if c not in "[*?:\\-^" and ord(c) < 127 else "?")
        if k < 0.3:
            return "[" + c + "]"
        if k < 0.5:
            return "[" + "".join(r.sample(["x", c, "9", "m"], 4)) + "]"
        lo, hi = max(48, ord(c) - r.randint(0, 3)), min(122, ord(c) + r.randint(0, 3))
        if not (chr(lo).isalnum() and chr(hi).isalnum()):
            return "[" + c + "]"
        k = r.random()
        if k < 0.6:
            return "[%c-%c]" % (lo, hi)
        if k < 0.75:
            return "[x%c-%c]" % (lo, hi)
        if k < 0.9:
            return "[%c-%c-]" % (lo, hi)
        return "[]%c-%cx]" % (lo, hi)

    def entry(self, kind, used):
        r = self.r
        cands = [d for d in self.places() if d] if kind != "mbox" else [d for d in self.places() if d] + [f for f, c in self.files.items() if self.dirs.get(os.path.dirname(f), "") != "part"]
        cands += [l for l, t in self.links.items()]
        if not cands or r.random() < 0.05:
            cands = ["nowhere", "no/where"]
        c = r.choice(sorted(cands))
        for _ in range(10):
            if c.split("/")[0] in used and r.random() < 0.85:
                c = r.choice(sorted(cands))
        used.add(c.split("/")[0])
        up, n = os.path.split(c)
        if r.random() < 0.4:
            n = self.wild(n)
            if "/" not in c and n.startswith("*"):
                used.update(x.split("/")[0] for x in cands)
        if n in (".", ".."):
            n = os.path.split(c)[1]
        e = (up + "/" if up else "") + n
        if r.random() < 0.4:
            e += "..."
        if not used - {c.split("/")[0]} and r.random() < 0.12:
            e = "..."
            used.update(x.split("/")[0] for x in cands)
        e = e.replace(":", "\\:")
        if r.random() < self.absp:
            e = "@/" + e
        return e

    def lines(self, kind):
        r = self.r
        used = set()
        es = [self.entry(kind, used) for _ in range(r.choice([1, 1, 1, 2, 2, 3]))]
        return self.fold(es)

    def fold(self, es):
        if len(es) > 1 and self.r.random() < 0.4:
            i = self.r.randint(1, len(es) - 1)
            return [":".join(es[:i]), ":".join(es[i:])]
        return [":".join(es)]

    def omit(self):
        r = self.r
        es = []
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            cands = sorted([d for d in self.places() if d] + list(self.files) + list(self.links))
            if not cands:
                break
            c = r.choice(cands)
            k = r.random()
            if k < 0.25:
                e = c
            elif k < 0.5:
                e = self.wild(c)
            elif k < 0.8:
                i = r.randint(0, len(c) - 1)
                j = r.randint(i, len(c))
                e = c[:i] + r.choice(["*", "**", "**"]) + (c[j:] if r.random() < 0.6 else "")
            else:
                e = "/".join(r.choice([x, "*", "*" + x[-1:], x[:1] + "*", "**"]) for x in c.split("/"))
            e = re.sub(r"\[(?![^\]])", "?", e) if "[" in e and "]" not in e else e
            e = re.sub(r"\*\*\*+", "**", e)
            e = e.replace(":", "\\:")
            if r.random() < 0.1:
                e = r.choice(["**/", "**"]) + e
                e = re.sub(r"\*\*\*+", "**", e)
            elif r.random() < max(0.06, self.absp - 0.2):
                e = "@/" + e
                e = re.sub(r"\*\*\*+", "**", e)
            if "[" in e and not re.fullmatch(r"(?:[^\[]|\[.[^\]]*\])*", e):
                e = e.replace("[", "?")
            es.append(e)
        return self.fold(es) if es else []


def scenario(r):
    t = Tree(r)
    for _ in range(r.choice([6, 10, 16, 22])):
        t.grow()
    if r.random() < 0.1:
        t.ops += [["dir", "new"], ["dir", "cur"], ["dir", "tmp"], ["file", "cur/1", MSG, 0]]
        t.dirs.update({"new": "part", "cur": "part", "tmp": "part"})
    sets = None
    for _ in range(r.choice([1, 1, 2, 3])):
        if sets is None or r.random() < 0.5:
            kinds = [k for k in ("maildir", "mh", "mbox") if r.random() < 0.6] or ["maildir"]
            sets = {"op": "conf", "maildir": [], "mh": [], "mbox": [], "omit": t.omit(), "follow": int(r.random() < 0.4)}
            for k in kinds:
                sets[k] = t.lines(k)
            t.ops.append(["conf", sets])
        t.ops.append(["index", r.choice([[], [], ["-p"], ["-F"]])])
        for _ in range(r.choice([1, 2, 4])):
            t.grow() if r.random() < 0.5 else t.shrink()
    # the last changes are not indexed: drop them
    while t.ops and t.ops[-1][0] != "index":
        t.ops.pop()
    return {"ops": t.ops}


def nodes(root):
    """All files, links resolved, under the path by which they are reached; by its real name: omit patterns see all of an absolute path."""
    res = []
    seen = {}

    def walk(p, virt):
        for n in sorted(os.listdir(p)):
            q = os.path.join(p, n)
            n = n.decode("latin-1")
            try:
                os.stat(q)
            except OSError:
                continue
            d = os.path.isdir(q)
            k = 0
            if not d:
                with open(q, "rb") as f:
                    b = f.read()
                if n.endswith(".gz") and b[:2] == b"\x1f\x8b":
                    b = gzip.decompress(b)
                k = b.count(SEP.encode())
            res.append({"p": bl(virt + "/" + n), "up": bl(virt), "n": bl(n), "d": int(d), "link": int(os.path.islink(q)), "k": k})
            if d:
                walk(q, virt + "/" + n)
    walk(os.path.join(root, "m").encode(), root + "/m")
    res.append({"p": bl(root + "/m"), "up": bl(root), "n": bl("m"), "d": 1, "link": 0, "k": 0})
    return res


def bl(s):
    return list(s.encode("latin-1"))


def os_path(w, rel):
    return os.path.join(w.base, rel).encode("latin-1")


def run(scn, d, binary):
    w = World(d, binary)
    w.base = w.base
    ev = []
    dirty = True

    def setrc(c):
        with open(w.rcfile, "wb") as f:
            f.write(("base=%s\ndatabase=%s\n" % (w.base, w.db)).encode())
            for k in ("maildir", "mh", "mbox", "omit"):
                for x in c[k]:
                    f.write(("%s=%s\n" % (k, x.replace("@/", w.base + "/"))).encode("latin-1"))
            if c["follow"]:
                f.write(b"follow_mbox_symlinks\n")

    for o in scn["ops"]:
        if o[0] == "dir":
            os.makedirs(os_path(w, o[1]), exist_ok=True)
        elif o[0] == "file":
            p = os_path(w, o[1])
            b = o[2].encode("latin-1")
            if o[1].endswith(".gz") and o[3]:
                b = gzip.compress(b, mtime=0)
            if not os.path.isdir(os.path.dirname(p)):
                continue
            with open(p, "wb") as f:
                f.write(b)
        elif o[0] == "link":
            p = os_path(w, o[1])
            if os.path.isdir(os.path.dirname(p)) and not os.path.lexists(p):
                os.symlink(os_path(w, o[2]), p)
        elif o[0] == "rm":
            p = os_path(w, o[1])
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p)
            elif os.path.lexists(p):
                os.unlink(p)
        elif o[0] == "conf":
            setrc(o[1])
            ev.append(dict({k: [bl(x.replace("@/", w.d + "/m/")) for x in o[1][k]] for k in ("maildir", "mh", "mbox", "omit")},
                           op="conf", base=bl(w.d + "/m"), follow=o[1]["follow"]))
        if o[0] != "index":
            if o[0] != "conf":
                dirty = True
            continue
        if dirty:
            ev.append({"op": "tree", "nodes": nodes(w.d)})
            dirty = False
        rc, out, err = w.index(*o[1])
        ev.append({"op": "index", "rc": rc, "err": err.decode("latin-1")[:200].replace(w.d, "/R")})
        if rc == 999:
            break
        rc, out, err = w.run(["-r", "~zzzqqqzzz"])
        res = []
        for x in out.decode("latin-1").split("\n"):
            if x:
                m = re.match(r"^mbox:(.*) \[\d+,\d+\)$", x)
                x = re.sub("/+", "/", m.group(1) if m else x)
                res.append(bl(x))
        ev.append({"op": "all", "rc": rc, "res": res})
        if rc == 999:
            break
    return {"ev": ev}
