"""Stores with folders of every kind."""
from . import gen
from .histgen import MboxStore, Store


class Mixed(MboxStore):
    def __init__(self, r, pool, maildirs, mhs, boxes, kinds, **kw):
        super().__init__(r, pool, boxes, kinds, **kw)
        self.maildirs, self.mhs = list(maildirs), list(mhs)
        self.ops = [["maildir", f] for f in self.maildirs] + [["mh", f] for f in self.mhs]

    def rc(self):
        rc = {}
        if self.maildirs:
            rc["maildir"] = ":".join(self.maildirs)
        if self.mhs:
            rc["mh"] = ":".join(self.mhs)
        if self.names:
            rc["mbox"] = ":".join(self.names)
        return rc

    def pick(self):
        fs = sorted(x for x in self.files if "/" in x)
        return self.r.choice(fs) if fs else None

    def step(self):
        r = self.r
        if self.names and (r.random() < 0.5 or not (self.maildirs or self.mhs)):
            MboxStore.step(self)
        elif self.r.random() < 0.04:
            for rel in sorted(x for x in self.files if "/" in x):
                if r.random() < 0.7:
                    del self.files[rel]
                    self.ops.append(["del", rel])
        else:
            k = r.random()
            f = self.deliver if k < 0.35 else self.delete if k < 0.6 else self.rename if k < 0.75 else self.rewrite if k < 0.9 else self.recreate
            if self.maildirs or self.mhs:
                f()

    def populate(self, n):
        for b in self.names:
            if self.r.random() < 0.8:
                self.create(b)
        if self.maildirs or self.mhs:
            for _ in range(n):
                self.deliver()

    def dump(self):
        last = [o for o in self.ops if o[0] in ("index", "imap_index")][-1]
        self.ops.append(["dump", 1 if "-p" in last else 0])


def layout(r):
    return r.choice([(["a"], ["b"], ["m1"]), (["a", "c"], [], ["m1", "m2"]), ([], ["b"], ["m1"]), (["a"], [], []), ([], [], ["m1", "m2", "m3"]),
                     (["a"], ["b", "d"], ["z.gz", "m1"])])


def mixed_store(r, n, npool=None, mids=6, mime=0.05):
    md, mh, mb = layout(r)
    pool = gen.Pool(r, n=npool or r.choice([5, 9]))
    s = Mixed(r, pool, md, mh, mb, {x: "mmdf" if r.random() < 0.2 else "mbox" for x in mb}, mids=mids)
    s.mime = mime
    s.populate(n)
    return s


def finish(s):
    return {"rc": s.rc(), "ops": s.ops, "hash_key": s.r.randint(0, 2**31 - 1)}


def purge_history(r, rounds):
    s = mixed_store(r, r.choice([1, 3, 6]))
    s.index([])
    s.searches(1)
    for _ in range(rounds):
        for _ in range(r.choice([0, 1, 2, 3, 5])):
            s.step()
        s.index(r.choice([["-p"], ["-p"], ["-p", "-F"], [], []]))
        for _ in range(2):
            s.ops.append(["search", [gen.word_query(r, s.pool)], r.randint(0, 1)])
        s.searches(1)
        s.ops.append(["search", ["m:id%d@x" % r.randint(1, s.mids)], 1])
        if s.files:
            s.dump()
    return finish(s)


def thread_history(r, rounds):
    s = mixed_store(r, r.choice([2, 5, 10, 20]), npool=5, mids=r.choice([3, 6, 15, 30]))
    s.index([])
    for i in range(rounds):
        if i:
            for _ in range(r.choice([1, 2, 4])):
                s.step()
            s.index(r.choice([[], [], ["-p"], ["-F"]]))
        for _ in range(3):
            k = r.random()
            q = ["m:id%d@x" % r.randint(1, s.mids)] if k < 0.4 else ["s:" + s.pool.word()] if k < 0.8 else [gen.word_query(r, s.pool), "F:-s"]
            s.ops.append(["search", q, 1])
        s.ops.append(["search", ["~zzzqqqzzz"], 1])
    return finish(s)


def thread_graph(r):
    """Messages with many shared identifiers; the thread of every message is asked for."""
    n = r.choice([3, 5, 8, 14])
    k = r.choice([2, n // 2 + 1, n, n + 3])
    ids = ["i%d@x" % i for i in range(k)]
    mh = r.random() < 0.5
    ops = [["mh", "b"] if mh else ["maildir", "a"]]
    live, when, box = [], 1000000000, []
    order = list(range(n))
    r.shuffle(order)
    mbox = r.random() < 0.4
    cut = r.choice([n, n, n // 2])
    p3 = r.choice([0.15, 0.3, 0.6])

    def msg(i):
        h = ["Subject: g%d" % (i % 3)]
        if r.random() < 0.85:
            mid = r.choice(ids) if r.random() < 0.5 else "m%d@y" % i
            h.append(r.choice(["Message-ID: <%s>", "Message-Id:<%s>", "message-id: x <%s> y"]) % mid)
        if r.random() < p3:
            h.append("In-Reply-To: " + r.choice(["<%s>", "Your message <%s> of today", "<%s> <i0@x>"]) % r.choice(ids))
        if r.random() < p3:
            refs = r.sample(ids, r.randint(1, min(4, k)))
            if r.random() < 0.08:       # a long discussion
                refs = ["pad%d.%d@a-rather-long-name.example.org" % (i, x) for x in range(r.choice([5, 20, 30, 60]))] + refs
            h.append("References: " + r.choice([" ", "\n ", ""]).join("<%s>" % x for x in refs))
        r.shuffle(h)
        return "\n".join(h) + "\n\nw%d\n" % i
    files = {}
    for j, i in enumerate(order):
        if j == cut:
            ops.append(["index"])
        if mbox and r.random() < 0.5:
            box.append("From a@b.cc Mon Jan  1 12:34:56 2001\n" + msg(i) + "\n")
            ops.append(["put", "m1", "mbox", "".join(box), when + j])
        else:
            rel = "b/%d" % (i + 1) if mh else "a/cur/%d.x:2,S" % (i + 1)
            files[i] = rel
            ops.append(["put", rel, "file", msg(i), when + j])
    ops.append(["index"])
    for i in range(n):
        ops.append(["search", ["b:w%d" % i], 1])
    for rnd in range(r.choice([0, 1, 2])):
        for _ in range(r.choice([1, 2])):
            if files:
                i = r.choice(sorted(files))
                ops.append(["del", files.pop(i)])
        if r.random() < 0.3:
            i = n + rnd
            files[i] = "b/%d" % (i + 1) if mh else "a/cur/%d.x:2,S" % (i + 1)
            ops.append(["put", files[i], "file", msg(i), when + 100 + i])
        ops.append(["index"] + r.choice([[], ["-p"], ["-F"]]))
        for i in r.sample(range(n), min(n, 6)):
            ops.append(["search", ["b:w%d" % i], 1])
        ops.append(["search", [r.choice(["s:g0", "s:g1", "m:i0@x", "~w1"])], 1])
    rc = {"mh": "b"} if mh else {"maildir": "a"}
    if mbox:
        rc["mbox"] = "m1"
    return {"rc": rc, "ops": ops, "hash_key": r.randint(0, 2**31 - 1)}


def thread_forest(r):
    """Threads held together without redundancy: every identifier joins messages of otherwise separate groups."""
    n = r.choice([4, 6, 9, 15])
    comp = list(range(n))
    have = [[] for _ in range(n)]
    ids = r.randint(n // 2, n)
    for e in range(ids):
        groups = {}
        for i in range(n):
            groups.setdefault(comp[i], []).append(i)
        if len(groups) < 2:
            break
        g = r.sample(sorted(groups), min(len(groups), r.choice([2, 2, 3, 3, 4])))
        for c in g:
            have[r.choice(groups[c])].append("e%d@x" % e)
        for i in range(n):
            if comp[i] in g:
                comp[i] = g[0]
    ops = [["mh", "b"]]
    perm = list(range(n))
    r.shuffle(perm)
    cut = r.choice([n, n, n, n // 2])
    for j in range(n):
        if j == cut:
            ops.append(["index"])
        i = perm[j]
        ids = have[i][:]
        r.shuffle(ids)
        h = ["Subject: x"]
        if ids and r.random() < 0.5:
            h.append("Message-ID: <%s>" % ids.pop())
        if ids and r.random() < 0.5:
            h.append("In-Reply-To: <%s>" % ids.pop())
        if ids:
            h.append("References: " + " ".join("<%s>" % x for x in ids))
        ops.append(["put", "b/%d" % (j + 1), "file", "\n".join(h) + "\n\nw%d\n" % j, 1000000000 + j])
    ops.append(["index"])
    for j in range(n):
        ops.append(["search", ["b:w%d" % j], 1])
    return {"rc": {"mh": "b"}, "ops": ops, "hash_key": r.randint(0, 2**31 - 1)}
