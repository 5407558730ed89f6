"""Random histories of mail stores (Maildir, MH, mbox) interleaved with index runs and searches."""
from . import gen, mimegen

FLAGS = ["", "S", "R", "F", "FS", "RS", "FRS", "FR", "D", "DS", "T", "PS", "2,S"]


class Store:
    def __init__(self, r, pool, folders, mh=(), mids=6):
        self.r, self.pool = r, pool
        self.maildirs, self.mhs = list(folders), list(mh)
        self.files = {}          # rel -> content
        self.mtime = {}
        self.n = 0
        self.clock = 1000000000
        self.ops = [["maildir", f] for f in self.maildirs] + [["mh", f] for f in self.mhs]
        self.mids = mids

    mime = 0.05         # how many of the messages are MIME

    def tick(self):
        self.clock += self.r.choice([1, 1, 60, 86400, -3600])
        return self.clock

    def content(self):
        r, p = self.r, self.pool
        if r.random() < self.mime:
            m = mimegen.Mime(r, p)
            m.cut_off = type(self) is Store
            return m.message(r.choice([0, 1, 1]))
        h = []
        if r.random() < 0.7:
            h.append("From: " + p.addr())
        if r.random() < 0.5:
            h.append("To: " + p.addrs())
        if r.random() < 0.2:
            h.append("Cc: " + p.addrs())
        h.append("Subject: " + " ".join(p.word() for _ in range(r.randint(0, 3))))
        k = r.random()
        if k < 0.8:
            h.append("Message-ID: <%s>" % self.mid())
        if r.random() < 0.3:
            h.append("In-Reply-To: <%s>" % self.mid())
        if r.random() < 0.3:
            h.append("References: " + " ".join("<%s>" % self.mid() for _ in range(r.randint(1, 3))))
        if r.random() < 0.4:
            h.append("Date: " + gen.date_header(r))
        if r.random() < 0.15:
            h.append("Content-Type: text/plain; name=\"%s.txt\"\nContent-Disposition: attachment; filename=\"%s.txt\"" % (p.word(), p.word()))
        pad = ""
        if r.random() < 0.04:
            pad = ("%s " % r.choice(["x", "pad", "0123456789" * 6])) * r.choice([10, 100, 300])
            pad = pad[:r.choice([500, 1000, 1020, 2040, 4090, 4100, 9000])] + "\n"
        return "\n".join(h) + "\n\n" + pad + p.text(r.randint(0, 6), seps=[" ", "\n", ", "]) + "\n"

    def mid(self):
        r = self.r
        if r.random() < 0.6:
            return "id%d@x" % r.randint(1, self.mids)
        self.n += 1
        return "u%d@y" % self.n

    def newname(self):
        r = self.r
        self.n += 1
        if self.mhs and (not self.maildirs or r.random() < 0.4):
            f = r.choice(self.mhs)
            k = r.choice([self.n, self.n, 1000 + self.n, 99999 - self.n])
            rel = "%s/%d%s" % (f, k, "." if r.random() < 0.08 else "")
        else:
            f = r.choice(self.maildirs)
            b = r.choice(["%d.m", "1%d.host", "Z%d", "a%d", "%05d", "%d.M1P2.h,S=12", "%d x", "%d:1,S", "%d.gitignore", "%d\\#!"]) % self.n
            rel = "%s/new/%s" % (f, b) if r.random() < 0.4 else "%s/cur/%s%s" % (f, b, r.choice(["", ":2,", ":2,"]) and ":2," + r.choice(FLAGS))
        return rel

    def put(self, rel, content, mtime=None):
        m = mtime if mtime is not None else self.tick()
        self.files[rel], self.mtime[rel] = content, m
        self.ops.append(["put", rel, "file", content, m])

    def deliver(self):
        rel = self.newname()
        if rel not in self.files:
            self.put(rel, self.content())

    def pick(self):
        return self.r.choice(sorted(self.files)) if self.files else None

    def delete(self):
        rel = self.pick()
        if rel:
            del self.files[rel]
            self.ops.append(["del", rel])
            return rel

    def rename(self):
        r = self.r
        rel = self.pick()
        if not rel or "/" not in rel:
            return
        parts = rel.split("/")
        base = parts[-1].split(":")[0]
        if parts[0] in self.mhs or not self.maildirs:
            to = self.newname()
        else:
            f = r.choice(self.maildirs) if r.random() < 0.2 else "/".join(parts[:-2])
            to = "%s/cur/%s:2,%s" % (f, base, r.choice(FLAGS))
            if r.random() < 0.1:
                to = "%s/new/%s" % (f, base)
        if to in self.files or to == rel:
            return
        self.ops.append(["mv", rel, to])
        self.files[to] = self.files.pop(rel)
        self.mtime[to] = self.mtime.pop(rel)

    def rewrite(self):
        r = self.r
        rel = self.pick()
        if not rel:
            return
        old = self.files[rel]
        k = r.random()
        if k < 0.4:
            self.put(rel, self.content())
        elif k < 0.6:     # same time, other size
            new = self.content()
            if len(new) != len(old):
                self.put(rel, new, self.mtime[rel])
        elif k < 0.8:     # same size, other time
            w = self.pool.word()
            i = old.rfind("\n\n")
            new = old[:i + 2] + (w + " " + old[i + 2:])[:len(old) - i - 2]
            if r.random() < 0.3:
                i = r.randint(i + 1, len(old) - 1)
                if old[i].isalnum():
                    new = old[:i] + r.choice("abcxyz0_ ") + old[i + 1:]
            m = self.tick()
            if m != self.mtime[rel]:
                self.put(rel, new, m)
        else:             # touched
            self.put(rel, old)

    def recreate(self):
        rel = self.delete()
        if rel:
            if self.r.random() < 0.5:
                self.index()
            self.put(rel, self.content())

    def index(self, flags=None):
        r = self.r
        if flags is None:
            flags = r.choice([[], [], [], ["-p"], ["-p"], ["-F"], ["-F", "-p"]])
        self.ops.append(["index"] + flags)

    def searches(self, n=3):
        r, p = self.r, self.pool
        self.ops.append(["search", ["~zzzqqqzzz"], 0])
        for _ in range(n):
            k = r.random()
            if k < 0.35:
                q = [gen.word_query(r, p)]
            elif k < 0.5:
                q = ["F:" + r.choice(["s", "-s", "r", "-r", "f", "-f", "s-f", "-s-r", "rf"])]
            elif k < 0.6:
                q = ["s:" + p.word() + "=" if r.random() < .5 else "b:^" + p.word()[:2] + "="]
            elif k < 0.7:
                q = ["m:id%d@x" % r.randint(1, self.mids)]
            elif k < 0.8:
                q = ["p:" + r.choice(["cur", "new", "a", "1", ":2", "S", "Z2", "sub", "^/", "0=", "cur=1", "^tmp=", "~^tmp"])]
            elif k < 0.84:
                q = [gen.word_query(r, p), "~" + p.word()]
            elif k < 0.88:
                y = r.randint(1970, 2105)
                q = [r.choice(["d:%d0101-", "d:-%d0101", "d:%d0630-{}0630".format(y + r.randint(1, 25))]) % y]
            elif k < 0.92:
                q = ["z:" + r.choice(["%d-", "-%d"]) % r.choice([50, 120, 200, 300, 600, 1000])]
            else:
                q = ["n:" + p.word() + ".txt"]
            self.ops.append(["search", q, 1 if r.random() < 0.3 else 0])

    def step(self):
        k = self.r.random()
        if k < 0.3:
            self.deliver()
        elif k < 0.5:
            self.delete()
        elif k < 0.68:
            self.rename()
        elif k < 0.85:
            self.rewrite()
        elif k < 0.93:
            self.recreate()
        elif k < 0.96:
            for rel in sorted(self.files):
                if self.r.random() < 0.7:
                    del self.files[rel]
                    self.ops.append(["del", rel])
        else:
            for _ in range(5):
                self.deliver()


def file_history(r, rounds=6, dump=0.4, init=None):
    pool = gen.Pool(r, n=r.choice([5, 9]))
    md = r.choice([["a"], ["a"], ["a", "a/.sub", "c"], []])
    mh = r.choice([["b"], []]) if md else ["b"]
    s = Store(r, pool, md, mh)
    for _ in range(init if init is not None else r.choice([0, 1, 2, 4, 8])):
        s.deliver()
    s.index([])
    s.searches(1)
    for _ in range(rounds):
        for _ in range(r.choice([0, 1, 1, 2, 3, 5])):
            s.step()
        if r.random() < 0.1:
            s.searches(1)          # not yet indexed
        s.index()
        s.searches(r.choice([1, 2, 3]))
        if r.random() < dump and s.files:
            s.ops.append(["dump", 1 if "-p" in [o for o in s.ops if o[0] == "index"][-1] else 0])
    rc = {}
    if md:
        rc["maildir"] = ":".join(md)
    if mh:
        rc["mh"] = ":".join(mh)
    return {"rc": rc, "ops": s.ops, "hash_key": r.randint(0, 2**31 - 1)}


# ---- mbox ------------------------------------------------------------------------------------
def from_line(r, pool):
    """Separator lines of many layouts."""
    k = r.random()
    a = r.choice(["a@b.cc", "x@y", "joe", "<a@b.cc>", "-", "", "MAILER-DAEMON", "\"joe b\"@x.y", "u@[10.0.0.1]", "a!b!c",
                  "first.last+tag@host-1.example.org", "@r1:u@h", "%s@%s" % (pool.word(), pool.word())])
    wd = r.choice(["Mon", "Tue", "Sat", "Sun"])
    mo = r.choice(gen.MONTHS)
    d = r.randint(1, 28)
    day = r.choice(["%2d", "%d", "%02d"]) % d
    hm = "%02d:%02d" % (r.randint(0, 23), r.randint(0, 59))
    t = hm + (":%02d" % r.randint(0, 59) if r.random() < 0.8 else "")
    z = r.choice(["", "", "", "EST ", "+0100 ", "MET DST ", "GMT+1 "])
    y = str(r.randint(1990, 2030))
    if k < 0.85:
        s = "From %s %s %s %s %s %s%s" % (a, wd, mo, day, t, z, y)
        if r.random() < 0.1:
            s += r.choice([" EST", " +0100", " remote from host.x", " "])
    else:
        s = "From %s %s, %s %s %s %s%s" % (a, wd, day.strip(), mo, r.choice([y, y[2:]]), t, r.choice([" EST", " +0100", " "]))
    return s


def fake_from(r, pool):
    """Body lines that resemble separators (whether they are is decided by the specification)."""
    return r.choice(["From %s" % pool.word(), "From here on %s it is" % pool.word(), ">From a@b.cc Sat Jan  1 00:00:00 2011",
                     "From a@b.cc Sat Jan 1st 00:00:00 2011", " From a@b.cc Sat Jan  1 00:00:00 2011",
                     "From a@b.cc sat Jan  1 00:00:00 2011", "From: a@b.cc Sat Jan  1 00:00:00 2011",
                     "From a@b.cc Sat Jan  1 0:00 2011", "From a@b.cc Sat Jan 11 00:00:00 11", "from a@b.cc Sat Jan  1 00:00:00 2011",
                     "From me to you, Sat Jan  1 00:00:00 2011", "FROM a@b.cc Sat Jan  1 00:00:00 2011",
                     "From a@b.cc Sat Jan  1 00:00:00", "From a b Sat Jan  1 00:00:00 2011", "xFrom a@b.cc Sat Jan  1 00:00:00 2011",
                     "From\ta@b.cc Sat Jan  1 00:00:00 2011", "From a@b.cc  Sat  Jan  1  00:00:00  AB CD EF 2011"])


class MboxStore(Store):
    linked = ()         # the names that are symbolic links to the folder

    def __init__(self, r, pool, boxes, kinds, **kw):
        super().__init__(r, pool, [], [], **kw)
        self.boxes = {}
        self.names = boxes
        self.kinds = kinds
        self.fmt = {}
        self.seq = 0

    def one(self):
        r, p = self.r, self.pool
        m = self.content()
        if r.random() < 0.3:
            i = m.index("\n\n")
            st = r.choice(["Status: RO", "Status: O", "Status: R\nX-Status: AF", "X-Status: F", "X-Status: A", "Status: ", "X-Status: RAF"])
            m = m[:i] + "\n" + st + m[i:]
        if r.random() < 0.25:
            m += fake_from(r, p) + "\n" + p.text(2) + "\n"
        if r.random() < 0.12:
            self.seq += 1
            b = "bnd%d" % self.seq
            chunks = [from_line(r, p) + "\nSubject: inner\n\n" + p.word() if r.random() < 0.7 else p.word() for _ in range(r.choice([1, 1, 2, 5, 12]))]
            m = ("Subject: %s\nMIME-Version: 1.0\nContent-Type: multipart/mixed; boundary=\"%s\"\n\npre\n--%s\nContent-Type: text/plain\n\n%s\n"
                 "--%s\nContent-Type: text/plain\n\n%s\n%s\n%s\n--%s--\n" % (
                     p.word(), b, b, p.word(), b, p.word(), "\n".join(chunks), p.word(), b))
        k = r.random()
        if k < 0.08:
            m = "\n"
        elif k < 0.1:
            m = "no header here\n\nbody %s\n" % p.word()
        elif k < 0.13:
            m += "x" * r.randint(1000, 9000) + " " + p.word() + " " + p.word() + "\n" + p.word() + "\n"
        elif k < 0.2 and m.endswith("\n"):
            pass
        if r.random() < 0.9 and m:
            m += "\n"
        return m

    def render(self, name):
        if self.fmt[name] == "mmdf":
            return "".join("\1\1\1\1\n%s\1\1\1\1\n" % m for _, m in self.boxes[name])
        return "".join("%s\n%s" % fm for fm in self.boxes[name])

    def flush(self, name, mtime=None):
        self.put_mbox(name, self.render(name), mtime)

    def put_mbox(self, name, data, mtime=None):
        m = mtime if mtime is not None else self.tick()
        if self.files.get(name) != data and self.mtime.get(name) == m and len(self.files.get(name, "")) == len(data):
            m += 7
        self.files[name], self.mtime[name] = data, m
        self.ops.append(["put", name, "mbox", data, m])

    def new_msg(self):
        return (from_line(self.r, self.pool), self.one())

    def create(self, name):
        self.boxes[name] = [self.new_msg() for _ in range(self.r.choice([0, 1, 1, 2, 3, 5, 9]))]
        self.fmt[name] = self.kinds[name]
        if name in self.linked and name not in self.files:
            self.ops.append(["mblink", name, len(self.ops)])
        self.flush(name)

    def step(self):
        r = self.r
        name = r.choice(self.names)
        if name not in self.boxes:
            self.create(name)
            return
        box = self.boxes[name]
        k = r.random()
        if r.random() < 0.12 and box and self.fmt[name] == "mmdf":      # stray text between messages, or a separator defaced
            i = r.randrange(len(box) * 2)
            data = self.render(name).split("\1\1\1\1\n")
            data = [x + "\1\1\1\1\n" for x in data[:-1]] + data[-1:]
            if r.random() < 0.5 and i:
                data[i] = data[i][:-5] + r.choice(["xxxx\n", "\1\1\1x\n", " \1\1\1\n"])
            else:
                data[i] += r.choice(["stray\n", "\n", " \1\1\1\1\n", "\1\1\1\n"])
            self.put_mbox(name, "".join(data))
            self.index()
            self.searches(1)
            if r.random() < 0.5:
                self.put_mbox(name, "".join(data) + "\1\1\1\1\n%s\1\1\1\1\n" % self.new_msg()[1])
                self.index()
                self.searches(1)
        elif k < 0.3:
            for _ in range(r.choice([1, 1, 2, 4])):
                box.append(self.new_msg())
            self.flush(name)
        elif k < 0.4 and box:
            for _ in range(r.choice([1, 1, 2])):
                if box:
                    box.pop()
            self.flush(name)
        elif k < 0.5 and box:
            del box[r.randrange(len(box))]
            self.flush(name)
        elif k < 0.58 and box:      # same-size change in place
            i = r.randrange(len(box))
            f, m = box[i]
            w = r.choice(self.pool.words)
            j = m.find("\n\n")
            if j > 0 and r.random() < 0.3 and len(m) - j > 40:
                j = len(m) - 30
            if j > 0 and "boundary" not in m and len(m) - j > len(w) + 4:
                box[i] = (f, m[:j + 2] + w + " " + m[j + 3 + len(w):])
                if not box[i][1].endswith("\n"):
                    box[i] = (f, m)
            if r.random() < 0.4:
                box.append(self.new_msg())
            self.flush(name)
        elif k < 0.66 and box:      # a message changes its size, e.g. gains a Status header
            i = r.randrange(len(box))
            f, m = box[i]
            if m.startswith("Subject") or "\n\n" in m:
                box[i] = (f, "Status: RO\n" + m)
            self.flush(name)
        elif k < 0.72 and box and self.fmt[name] == "mbox":      # the last message grows
            f, m = box[-1]
            if "boundary" not in m and m.strip():
                box[-1] = (f, m + self.pool.word() + "\n")
            self.flush(name)
        elif k < 0.78 and box:      # reordered
            r.shuffle(box)
            self.flush(name)
        elif k < 0.82:
            self.boxes[name] = [self.new_msg() for _ in range(r.randint(0, 6))]
            self.flush(name)
        elif k < 0.84:              # same size, other time
            self.flush(name)
        elif k < 0.86 and box and self.fmt[name] == "mbox":      # a separator stops being one
            i = r.randrange(len(box))
            f, m = box[i]
            box[i] = (r.choice([f.replace("From ", r.choice(["Xrom ", "from ", "From\t"]), 1), "x\n" + f if len(f) < 50 else f[:-4] + "abcd",
                                "From " + f[7:] + "\n" + "y"]), m)
            self.flush(name)
        elif k < 0.89:
            self.boxes[name] = []
            self.flush(name)
        elif k < 0.92 and self.fmt[name] == "mbox":              # cut somewhere
            data = self.render(name)
            cut = r.randint(0, len(data))
            self.put_mbox(name, data[:cut])
            self.boxes[name] = [("", "")]
            del self.boxes[name][0]
            del self.boxes[name]
            if r.random() < 0.5:
                self.index()
                self.searches(1)
            self.create(name)
        elif k < 0.97:
            del self.boxes[name]
            self.ops.append(["del", name])
            self.files.pop(name, None)
        else:
            free = [n for n in self.names if n not in self.boxes and n.split(".")[-1] == name.split(".")[-1] and self.kinds[n] == self.kinds[name]]
            if free and "." not in name:
                to = free[0]
                self.ops.append(["mv", name, to])
                self.boxes[to] = self.boxes.pop(name)
                self.fmt[to] = self.fmt.pop(name)
                self.files[to] = self.files.pop(name)
                self.mtime[to] = self.mtime.pop(name)

    def index(self, flags=None):
        r = self.r
        if flags is None:
            flags = r.choice([[], [], [], ["-p"], ["-p"], ["-F"]])
        self.ops.append(["index"] + flags)


def mbox_history(r, rounds=6, dump=0.4):
    pool = gen.Pool(r, n=r.choice([5, 9]))
    names = r.choice([["m1"], ["m1", "m2"], ["m1", "m2", "m3", "m0"], ["m1", "z.gz"], ["q.bz2", "q.xz", "m1"]])
    kinds = {n: ("mmdf" if r.random() < 0.2 else "mbox") for n in names}
    s = MboxStore(r, pool, names, kinds)
    if r.random() < 0.15:
        s.linked = [n for n in names if r.random() < 0.7]
    for n in names:
        if r.random() < 0.75:
            s.create(n)
    s.index([])
    s.searches(1)
    for _ in range(rounds):
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            s.step()
        s.index()
        s.searches(r.choice([1, 2, 2]))
        if r.random() < dump and s.files:
            s.ops.append(["dump", 1 if "-p" in [o for o in s.ops if o[0] == "index"][-1] else 0])
    return {"rc": dict({"mbox": ":".join(names)}, **({"follow_mbox_symlinks": "yes"} if s.linked else {})), "ops": s.ops,
            "hash_key": r.randint(0, 2**31 - 1)}
