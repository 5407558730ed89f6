"""Histories with searches into match folders."""
from . import gen
from .mixed import Mixed, finish, layout
from .histgen import from_line


class OutStore(Mixed):
    """Mail of which no message is empty; some of it (in folders other than mboxes) has lines that look like separators."""

    def one(self):
        r = self.r
        m = self.content()
        if r.random() < 0.4:
            i = m.index("\n\n") if "\n\n" in m else 0
            if not i:
                return m + "\r\n"
            st = r.choice(["Status: RO", "Status: O", "Status: R\nX-Status: AF", "X-Status: F", "X-Status: A", "Status: ", "X-Status: RAF"])
            m = m[:i] + "\n" + st + m[i:]
        if r.random() < 0.3:
            m += "\n" * r.randint(1, 3)
        if r.random() < 0.1:
            m += "Z" * r.choice([3000, 4095, 9000]) + "\n"
        m += "\n"
        return m.replace("\n", "\r\n") if r.random() < 0.06 else m

    def render(self, name):
        if self.kinds[name] == "mbox":
            self.boxes[name] = [(f, ("\n" + m).replace("\nFrom ", "\n>From ")[1:]) for f, m in self.boxes[name]]
        return super().render(name)

    def shorten(self):
        """The end of the last message of an mbox is cut off; the name of the mbox, or None."""
        names = [x for x in self.names if x in self.boxes and self.kinds[x] == "mbox" and self.boxes[x] and x in self.files]
        if not names:
            return None
        name = self.r.choice(names)
        f, m = self.boxes[name][-1]
        k = self.r.choice([1, 1, 2, 3, 10])
        if len(m) - k < 1:
            return None
        self.boxes[name][-1] = (f, m[:-k])
        self.flush(name)
        return name

    def content(self):
        m = super().content()
        r = self.r
        k = r.random()
        if k < 0.15:
            m = m.rstrip("\n")
            if "\n\n" not in m:
                m += "\n\nx"
        elif k < 0.2:
            m += "\x00\xff\x80 bytes\n\n\n"
        elif k < 0.25:
            m += "".join(r.choice([">From a@b.cc Mon Jan  1 12:34:56 2001\n", "From a@b.cc Mon Jan  1 12:34:56 2001\n", "From here on\n",
                                   "\nFrom - Mon Jan  1 12:34:56 2001\n\n", "a From b@c Mon Jan  1 12:34:56 2001\n"]) for _ in range(r.randint(1, 3)))
        elif k < 0.27:
            m = "From a@b.cc Mon Jan  1 12:34:56 2001\n" + m
        elif k < 0.3:
            m += "x" * r.choice([1, 4000, 4096, 5000])
        elif k < 0.35:
            m = m.replace("\n", "\r\n")
        return m


def query(r, s):
    k = r.random()
    if k < 0.2:
        return ["~zzzqqqzzz"]
    if k < 0.25:
        return ["zzzqqqzzz"]
    if k < 0.6:
        return [gen.word_query(r, s.pool)]
    if k < 0.75:
        return ["F:" + r.choice(["s", "-s", "r", "-r", "f", "-f"])]
    if k < 0.9:
        return ["s:" + s.pool.word(), "~" + s.pool.word()]
    return ["m:id%d@x" % r.randint(1, s.mids)]


def store(r):
    md, mh, mb = r.choice([layout(r), layout(r), (["a"], [], ["z.gz", "q.bz2", "m1"])])
    pool = gen.Pool(r, n=r.choice([4, 7]))
    s = OutStore(r, pool, md, mh, mb, {x: "mmdf" if r.random() < 0.2 else "mbox" for x in mb}, mids=6)
    s.populate(r.choice([1, 3, 6, 10]))
    return s


def out_history(r, rounds):
    s = store(r)
    fmt = r.choice(["maildir", "maildir", "mh", "mbox"])
    s.ops.append(["rc", dict({"mformat": fmt, "mfolder": "unused"}, **({"sort": "date+"} if r.random() < 0.4 else {}))])
    s.index([])
    outs = r.choice([["out"], ["out", "out2"], ["sub/out"], ["./o"], ["vf.1"]])
    if outs == ["sub/out"]:
        s.ops.append(["mkdir", "sub"])
    for o in outs:          # something already there
        if r.random() < 0.3 and o[0] != ".":
            if fmt == "maildir":
                for k in range(r.randint(1, 3)):
                    s.ops.append(["other", o + r.choice(["/cur/old%d%s" % (k, r.choice(["", ":2,", ":2,S", ":2,FR"])), "/new/old%d" % k]), "Subject: old\n\nold %d\n" % k])
                if r.random() < 0.5:
                    s.ops += [["mkdir", o + "/new"], ["mkdir", o + "/cur"]]
            elif fmt == "mh":
                for k in r.sample([1, 2, 3, 9, 10, 11, 99, 100, 1000], r.randint(1, 3)):
                    s.ops.append(["other", o + "/%d" % k, "Subject: old\n\nold %d\n" % k])
            else:
                s.ops.append(["other", o, "".join("From a@b.cc Mon Jan  1 12:34:56 2001\nSubject: old\n\nold %d\n\n" % k for k in range(r.randint(1, 3)))])
            s.ops.append(["outset", o, fmt])
    hard = fmt in ("mh", "maildir") and r.random() < 0.25
    for _ in range(rounds):
        o = r.choice(outs)
        flags = (["-H"] if hard else [])
        s.ops.append(["fsearch", o, fmt, query(r, s), r.randint(0, 1) if r.random() < 0.4 else 0, 1 if r.random() < 0.45 else 0, flags])
        k = r.random()
        if k < 0.25 and fmt != "mbox":
            s.ops.append(["outmv", o, fmt, r.randint(0, 9), r.choice(["", "S", "RS", "F"])])
        if k < 0.1 and s.names:
            s.ops.append(["fsearch", o, fmt, ["~zzzqqqzzz"], 0, 0, flags])
            s.shorten()
            s.index(["-p"])
            for x in outs:
                s.ops.append(["outset", x, fmt])
            s.ops.append(["fsearch", o, fmt, ["~zzzqqqzzz"], 0, 1, flags])
        elif k > 0.6:
            for _ in range(r.choice([1, 2, 3])):
                s.step()
            s.index(r.choice([[], [], ["-p"]]))
            # links to what is no longer there are no items any more
            for x in outs:
                s.ops.append(["outset", x, fmt])
    sc = finish(s)
    return sc


def refuse_history(r):
    """Searches asked to write into folders that are indexed, however they are named."""
    s = store(r)
    s.ops.append(["watch"])
    folders = [(x, "maildir") for x in s.maildirs] + [(x, "mh") for x in s.mhs] + [(x, "mbox") for x in s.names if x in s.files]
    s.index([])
    if not folders:
        return finish(s)
    s.ops.append(["mkdir", "sub"])
    n = 0
    for _ in range(6):
        f, kind = r.choice(folders)
        fmt = r.choice([kind, kind, "maildir", "mh", "mbox"])
        if kind != "mbox" and fmt == "mbox":
            fmt = kind
        k = r.random()
        if k < 0.25:
            o = f
        elif k < 0.35:
            o = "@" + f
        elif k < 0.5:
            o = r.choice(["sub/../" + f, "sub/.././" + f, "../m/" + f, "@sub/../" + f])
        elif k < 0.6:
            o = r.choice(["/".join(["sub", "..", "", f]), "@/" + f])
        elif k < 0.7:
            o = "./m/" + f
        elif k < 0.8 and kind != "mbox":
            o = r.choice([f + "/", f + "/.", f + "//"] + ([f + "/new/..", f + "/cur/../"] if kind == "maildir" else []))
        else:
            n += 1
            l = "ln%d" % n
            s.ops.append(["link", l, f])
            o = l
        aug = 0
        if kind != "mbox" and r.random() < 0.35:        # among the messages of the folder
            fmt = r.choice(["maildir", "mh", "mbox", "mbox"])
            there = sorted(x for x in s.files if x.startswith(f + "/"))
            if there and r.random() < 0.5:
                o = r.choice(there)
            elif kind == "mh":
                o = f + "/" + r.choice(["1", "77", "1000"])
            else:
                o = f + r.choice(["/new", "/cur", "/cur/", "/new/x", "/cur/12", "/cur/1.y:2,S"])
            if o in there and r.random() < 0.4:
                n += 1
                s.ops.append(["link", "ln%d" % n, o])
                o = "ln%d" % n
                aug = r.randint(0, 1)
            else:
                o = r.choice(["", "", "@", "sub/../", "./m/"]) + o
        s.ops.append(["rc", {"mformat": fmt}])
        s.ops.append(["refused", o, fmt, query(r, s), aug])
    s.ops.append(["search", ["~zzzqqqzzz"], 0])
    return finish(s)


def guard_history(r, rounds):
    """Everything mairix does, with every change to the user's files recorded; match folders with other things in them."""
    s = store(r)
    s.ops.append(["watch"])
    fmt = r.choice(["maildir", "mh", "mbox"])
    hard = r.random() < 0.2
    s.ops.append(["rc", dict({"mformat": fmt}, **({"sort": "date+"} if r.random() < 0.3 else {}))])
    s.index([])
    o = r.choice(["out", "sub/out", "./m/out"])
    if o == "sub/out":
        s.ops.append(["mkdir", "sub"])
    oo = o if o[0] != "." else "out"
    inside = sorted(x for x in s.files if "/" in x) or None
    indexed = s.maildirs + s.mhs
    k = r.random()
    if k < 0.6 and fmt != "mbox":
        subs = ["/new/", "/cur/", "/"] if fmt == "maildir" else ["/"]
        s.ops.append(["mkdir", oo])
        for d in subs:
            s.ops.append(["mkdir", oo + d])
        nos = ["5", "17", "2.", "x1", "1x", ".mh_sequences", "0", "44"]
        for i in range(r.randint(1, 6)):
            d = r.choice(subs)
            nm = r.choice(nos) if fmt == "mh" else r.choice(["keep%d" % i, "123456789.0.mairix", "1:2,S", "77"])
            if any(q[0] in ("link", "other", "mkdir") and q[1] == oo + d + nm for q in s.ops):
                continue
            t = r.random()
            if t < 0.3 and indexed:
                s.ops.append(["link", oo + d + nm, r.choice(indexed)])
            elif t < 0.5 and inside:
                s.ops.append(["link", oo + d + nm, r.choice(inside)])
            elif t < 0.7:
                s.ops.append(["mkdir", oo + d + nm])
                s.ops.append(["other", oo + d + nm + "/12", "Subject: inside\n\nx\n"])
            else:
                s.ops.append(["other", oo + d + nm, "Subject: mine\n\nmine\n"])
        if fmt == "maildir":
            s.ops.append(["other", oo + "/tmp/t1", "x"])
            s.ops.append(["other", oo + "/.hidden", "x"])
    elif k < 0.7 and fmt == "maildir" and s.maildirs:
        s.ops.append(["mkdir", oo])
        s.ops.append(["link", oo + "/cur", s.maildirs[0] + "/cur"])
    elif k < 0.75:
        s.ops.append(["other", oo, "a file\n"])
    s.ops.append(["outset", o, fmt])
    for _ in range(rounds):
        k = r.random()
        q = query(r, s)
        if k < 0.5:
            s.ops.append(["fsearch", o, fmt, q, r.randint(0, 1), r.randint(0, 1), ["-H"] if hard else []])
        elif k < 0.6:
            s.ops.append(["search", q, r.randint(0, 1)])
        elif k < 0.7:
            s.ops.append(["excerpt", q, r.randint(0, 1)])
        elif k < 0.75:
            s.ops.append(["dump", 0])
        else:
            for _ in range(r.choice([0, 1, 2])):
                s.step()
            s.index(r.choice([[], ["-p"], ["-F"], ["-F", "-p"]]))
            s.ops.append(["outset", o, fmt])
    return finish(s)
