"""Histories of an IMAP server's folders, alone and beside local ones."""
from . import gen
from .outgen import OutStore, query

NAMES = ["INBOX", "work", "lists/tla", "Sent Mail", "a.b", "q\"uote", "back\\slash", "W\xe9rk", "&AOk-", "x" * 120, "work2", "junk", "junk1", "(p)", "[s]", "{3}", "~t"]
FLAGS = ["\\Seen", "\\Answered", "\\Flagged", "\\Draft", "\\Recent", "$Label", "\\Deleted"]


class ImapStore(OutStore):
    def __init__(self, r, pool, md, mh, mb):
        super().__init__(r, pool, md, mh, mb, {x: "mbox" for x in mb}, mids=6)
        self.fo = r.sample(NAMES, r.choice([1, 1, 2, 3, 4]))
        if r.random() < 0.5 and "INBOX" not in self.fo:
            self.fo[0] = "INBOX"
        self.uidv = 1
        self.missing = [x for x in ("nowhere", "gone") if r.random() < 0.25]
        self.omit = ["junk*"] if any(x.startswith("junk") for x in self.fo) and r.random() < 0.7 else []
        self.indexed = [x for x in self.fo + self.missing if not (self.omit and x.startswith("junk"))]
        names = self.fo + self.missing
        r.shuffle(names)
        self.listed = names
        self.other = r.choice(["elsewhere", "Archive"])      # a folder that is not indexed
        self.ops.append(["imap", "start", self.indexed])
        for f in self.fo + [self.other]:
            self.ops.append(["imap", "folder", f, self.validity(), r.choice([1, 1, 5, 99, 100000, 4294967290 - 200])])

    def rc(self):
        rc = super().rc()
        rc["imap"] = ":".join(self.listed)
        if self.omit:
            rc["omit"] = ":".join(self.omit)
        if self.login:
            rc["imap_username"], rc["imap_password"] = self.login
        return rc

    def validity(self):
        self.uidv += self.r.choice([1, 1, 9, 1000, 1000000])
        return self.uidv

    def opts(self, **kw):
        r = self.r
        o = {}
        if self.login:
            o["user"], o["password"] = self.login
            if r.random() < 0.2:
                o["preauth"] = 1
        else:
            o["preauth"] = 1
        for k in ("greetcaps", "logincaps", "order", "noise"):
            if r.random() < 0.5:
                o[k] = 1
        if r.random() < 0.3:
            o["chunk"] = r.choice([1, 2, 7, 100, 1023, 1024, 1025])
        o.update(kw)
        if o.get("chunk", 1000) < 100 and r.random() < 0.7:
            o["chunk"] = 100
        self.ops.append(["imap", "opts", o])

    def mail(self):
        r = self.r
        m = self.content()
        k = r.random()
        if k < 0.7:
            m = m.replace("\n", "\r\n")
        if r.random() < 0.05:
            m = r.choice(["", "", "\r\n", "x", "Subject: a(b \"c\" {7}\r\n\r\n) t1 OK done\r\n* 1 FETCH (UID 3)\r\n"])
        if r.random() < 0.1:
            m += "".join("%s line of padding\r\n" % ("y" * (i % 60)) for i in range(r.choice([30, 200])))
        return m

    def serve(self, stale=False):
        """Something happens on the server."""
        r = self.r
        f = r.choice(self.fo + [self.other])
        k = r.random() if not stale or r.random() < 0.7 else 0.95
        if k < 0.45:
            self.ops.append(["imap", "add", f, self.mail(), sorted(r.sample(FLAGS, r.choice([0, 0, 0, 1, 2]))), r.choice([0, 0, 1, 7])])
        elif k < 0.62:
            self.ops.append(["imap", "expunge", f, r.randint(0, 9)])
        elif k < 0.77:
            self.ops.append(["imap", "flags", f, r.randint(0, 9), r.sample(FLAGS[:-1] if stale else FLAGS, r.choice([0, 1, 2]))])
        elif k < (1 if stale else 0.85):
            self.ops.append(["imap", "renew", f, self.validity(), r.choice([1, 1, 1, 2, 10]), r.randint(0, 1)])
        elif k < 0.9:
            self.ops.append(["imap", "rmfolder", f])
        else:
            self.ops.append(["imap", "folder", r.choice(self.fo + self.missing + [self.other]), self.validity(), r.choice([1, 3])])


def history(r, rounds):
    md, mh, mb = r.choice([([], [], []), ([], [], []), (["a"], [], []), (["a"], ["b"], ["m1"]), ([], [], ["m1"])])
    pool = gen.Pool(r, n=r.choice([4, 7]))
    s = ImapStore(r, pool, md, mh, mb)
    s.login = r.choice([None, ("u", "p"), ("joe@x.yy", "s\"ec\\ret"), ("j o e", "pass word"), ("u\xe9", "\x01x"), ("u", "back\\")])
    if s.login and any(c in "".join(s.login) for c in "\x01"):
        s.login = ("u", "tab\tx")
    s.populate(r.choice([0, 2, 4]))
    for _ in range(r.choice([1, 4, 8])):
        s.ops.append(["imap", "add", r.choice(s.fo), s.mail(), sorted(r.sample(FLAGS, r.choice([0, 0, 1]))), 0])
    fmt = r.choice(["maildir", "mh", "mbox", "imap"])
    out = {"imap": r.choice(["found", "Found Mail", "elsewhere2", "q\"f", "b\\f"])}.get(fmt, "out")
    s.ops.append(["watch"])
    s.ops.append(["rc", {"mformat": fmt, "mfolder": "unused"}])
    for i in range(rounds):
        if i:
            for _ in range(r.choice([0, 1, 2, 4])):
                s.serve()
                if (md or mh or mb) and r.random() < 0.3:
                    s.step()
                    if fmt != "imap":
                        s.ops.append(["outset", out, fmt])
        k = r.random()
        if i and k < 0.12:
            s.opts(cut=r.randint(0, 8), cuthalf=r.randint(0, 1))
            s.ops.append(["imap_index"] + r.choice([[], ["-p"]]))
            s.ops.append(["search", query(r, s), 0])
        elif k < 0.25:
            s.opts(**r.choice([{"nofetch": r.sample(range(1, 8), 2)}, {"nolist": r.sample(s.fo, 1)}]))
            s.ops.append(["imap_index"])
            s.ops.append(["search", query(r, s), 0])
            s.ops.append(["search", ["~zzzqqqzzz"], 0])
        s.opts()
        s.ops.append(["imap_index"] + r.choice([[], [], ["-p"], ["-F"], ["-p", "-F"]]))
        s.ops.append(["search", ["~zzzqqqzzz"], 0])
        for _ in range(r.choice([1, 2])):
            s.ops.append(["search", query(r, s), r.randint(0, 1)])
        if r.random() < 0.3:
            s.ops.append(["search", ["p:" + r.choice(s.fo + ["elsewhere", "work"]).replace(",", "").replace("/", "")[:20]], 0])
        if r.random() < 0.3:
            s.opts()
            s.ops.append(["excerpt", query(r, s), 0])
        if r.random() < 0.2:
            s.dump()
        for _ in range(r.choice([0, 1, 2])):
            s.opts()
            s.ops.append(["imap_fsearch", out, fmt, query(r, s), 0, r.randint(0, 1) if r.random() < 0.5 else 0, []])
        if fmt == "imap" and s.indexed and r.random() < 0.3:
            s.opts()
            f = r.choice(s.indexed)
            s.ops.append(["refused", r.choice([f, f, f.lower() if f == "INBOX" else f]), fmt, query(r, s)])
    if r.random() < 0.35:
        s.ops.append(["unstale"])
        for _ in range(r.choice([0, 1, 3])):
            s.serve(True)
        k = r.random()
        s.opts(**({"cut": r.randint(0, 9), "cuthalf": r.randint(0, 1)} if k < 0.5 else {}))
        s.ops.append(["imap_fsearch", "out9", fmt, query(r, s), 0, 0, []])
        if r.random() < 0.3:
            s.opts()
            s.ops.append(["excerpt", query(r, s), 0])
    return {"rc": s.rc(), "ops": [["imap_index"] + o[1:] if o[0] == "index" else o for o in s.ops], "hash_key": r.randint(0, 2**31 - 1)}
