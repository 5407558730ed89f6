"""Executing a scripted history on the real program and recording it as a trace for TMairix."""
import bz2, gzip, hashlib, json, lzma, os, random, re, shutil, stat

from .world import World


def pack(rel, data):
    if rel.endswith(".gz"):
        return gzip.compress(data, mtime=0)
    if rel.endswith(".bz2"):
        return bz2.compress(data)
    if rel.endswith(".xz"):
        return lzma.compress(data)
    return data


def imap_flags(fl):
    return {"seen": int("\\Seen" in fl), "replied": int("\\Answered" in fl), "flagged": int("\\Flagged" in fl)}


class Hist:
    def __init__(self, d, binary, rc, env=None, today=None, hash_key=1):
        self.w = World(d, binary, hash_key=hash_key, **rc)
        if env:
            self.w.env.update(env)
        self.ev = []
        self.watch = False
        self.last = {}
        self.stale = None
        self.imap = None      # folders on the IMAP server that are indexed
        self.rc0 = dict(rc)
        self.trace = {"ev": self.ev}
        if today:
            self.trace["today"] = {"y": today[0], "m": today[1], "d": today[2]}

    def full(self, rel):
        return list(self.w.p(rel).encode("latin-1"))

    def op(self, o):
        return getattr(self, "op_" + o[0])(*o[1:])

    # ---- what a run did to the user's files ----
    def snapshot(self):
        """lstat type, content and link target of every file but the database and its lock."""
        res = {}
        for base, dirs, files in os.walk(self.w.d):
            rel = os.path.relpath(base, self.w.d)
            for x in dirs + files:
                if rel == "." and (x in ("db", "db.lock") or x.startswith("imap")):
                    continue
                p = os.path.join(base, x)
                st = os.lstat(p)
                k = os.path.normpath(os.path.join(rel, x))
                if stat.S_ISLNK(st.st_mode):
                    res[k] = ("link", os.readlink(p), 0, 0)
                elif stat.S_ISDIR(st.st_mode):
                    res[k] = ("dir", "", st.st_mode, 0)
                else:
                    with open(p, "rb") as f:
                        res[k] = ("file", hashlib.sha1(f.read()).hexdigest(), st.st_mode, st.st_mtime_ns)
        if self.imap is not None:
            for n, f in self.imap_state()["folders"].items():
                res["imap:" + n] = ("imap", json.dumps([f["uidv"], f["msgs"]]), 0, 0)
        return res

    def watched(self, e, f):
        """Run f with the changes it makes recorded in the event e."""
        if not self.watch:
            return f()
        a = self.snapshot()
        r = f()
        b = self.snapshot()
        diff = []
        for k in sorted(set(a) | set(b)):
            if a.get(k) != b.get(k):
                what = "created" if k not in a else "removed" if k not in b else "replaced" if a[k][0] != b[k][0] else "changed"
                comps = [k[:5], k[5:]] if k.startswith("imap:") else k.split("/")
                diff.append({"path": [list(c.encode("latin-1")) for c in comps], "what": what, "type": (b.get(k) or a[k])[0], "name": k})
        e["diff"] = diff
        return r

    def op_watch(self):
        self.watch = True

    def op_rc(self, kw):
        self.w.set_rc(**dict(self.rc0, **kw))

    def op_mkdir(self, rel):
        os.makedirs(self.w.p(rel), exist_ok=True)

    def op_link(self, rel, target):
        """A symbolic link of the user's (outside the indexed folders)."""
        os.makedirs(os.path.dirname(self.w.p(rel)), exist_ok=True)
        os.symlink(target if target.startswith(".") else self.w.p(target), self.w.p(rel))

    def op_mblink(self, rel, n):
        """The mbox rel is to be a symbolic link to a file elsewhere."""
        real = os.path.join(self.w.d, "real", "%d.%s" % (n, rel))
        os.makedirs(os.path.dirname(real), exist_ok=True)
        os.symlink(real, self.w.p(rel))

    def op_other(self, rel, data):
        """A file of the user's (outside the indexed folders)."""
        self.w.put(rel, data, 1234567890)

    def outfull(self, out):
        return out if out.startswith("/") else os.path.join(self.w.d, out) if out.startswith("./") else self.w.p(out)

    def outpath(self, out, fmt):
        if fmt == "imap":
            return [list(b"imap:"), list(out.encode("latin-1"))]
        p = self.outfull(out)
        p = os.path.join(os.path.realpath(os.path.dirname(p.rstrip("/"))), os.path.basename(p.rstrip("/")))
        if fmt != "mbox":
            p = os.path.realpath(p)
        return [list(c.encode("latin-1")) for c in os.path.relpath(p, self.w.d).split("/")]

    def look(self, out, fmt):
        """What a mail reader finds in a folder."""
        if fmt == "imap":
            f = self.imap_state()["folders"].get(out, {"msgs": []})
            return {"items": [dict({"sub": "", "raw": list(m[1].encode("latin-1"))}, **imap_flags(m[2])) for m in f["msgs"]]}
        p = self.outfull(out)
        if fmt == "mbox":
            try:
                with open(p, "rb") as f:
                    return {"raw": list(f.read())}
            except FileNotFoundError:
                return {"raw": []}
        items = []
        dirs = [("new", os.path.join(p, "new")), ("cur", os.path.join(p, "cur"))] if fmt == "maildir" else [("", p)]
        for sub, d in dirs:
            if not os.path.isdir(d) or (sub and os.path.islink(d)):
                continue
            for n in sorted(os.listdir(d)):
                q = os.path.join(d, n)
                if n.startswith(".") or (fmt == "mh" and not n.isdigit()) or os.path.isdir(q):
                    continue
                if os.path.exists(q) and not os.access(q, os.R_OK):
                    items.append({"sub": sub, "raw": list(b"UNREADABLE"), "seen": 0, "replied": 0, "flagged": 0})
                    continue
                if not os.path.exists(q):
                    items.append({"sub": sub, "raw": list(b"DANGLING " + os.readlink(q).encode("latin-1")), "seen": 0, "replied": 0, "flagged": 0})
                    continue
                with open(q, "rb") as f:
                    raw = f.read()
                if n.endswith(".gz"):
                    raw = gzip.decompress(raw)
                fl = n.rsplit(":2,", 1)[1] if ":2," in n else ""
                items.append({"sub": sub, "raw": list(raw), "seen": int("S" in fl), "replied": int("R" in fl), "flagged": int("F" in fl)})
        return {"items": items}

    def op_outset(self, out, fmt):
        e = {"op": "outset", "out": out, "fmt": fmt}
        e.update(self.look(out, fmt))
        self.ev.append(e)

    def op_outmv(self, out, fmt, k, flags):
        """The user moves or marks the k-th item of the match folder."""
        p = self.outfull(out)
        ns = sorted((s, n) for s in (("new", "cur") if fmt == "maildir" else ("",)) if os.path.isdir(os.path.join(p, s)) for n in os.listdir(os.path.join(p, s))
                    if fmt == "maildir" or n.isdigit())
        if ns:
            s, n = ns[k % len(ns)]
            if fmt == "maildir":
                to = ("cur", n.split(":")[0] + ":2," + flags)
            else:
                to = ("", str(int(n) + 3))
            if not os.path.lexists(os.path.join(p, *to)):
                os.rename(os.path.join(p, s, n), os.path.join(p, *to))
        self.op_outset(out, fmt)

    def op_fsearch(self, out, fmt, q, thr=0, aug=0, flags=()):
        e = {"op": "fsearch", "out": out, "fmt": fmt, "q": [list(x.encode("latin-1")) for x in q], "thr": thr, "aug": aug,
             "outpath": self.outpath(out, fmt)}
        args = list(flags) + (["-t"] if thr else []) + (["-a"] if aug else []) + ["-o", out] + list(q)
        rc, o, err = self.watched(e, lambda: self.w.run(args))
        m = re.search(rb"^Matched (\d+) messages$", o, re.M)
        e.update(rc=rc, count=int(m.group(1)) if m else -1, err=err.decode("latin-1")[:300])
        e.update(self.look(out, fmt))
        if self.stale is not None:
            e["stale"] = self.stale
        if rc not in (0, 1, 2, 3):
            self.w.unlock_stale()
        self.ev.append(e)

    def op_refused(self, out, fmt, q, aug=0):
        if out.startswith("@"):
            out = self.w.base + "/" + out[1:]
        e = {"op": "refused", "out": out}
        rc, o, err = self.watched(e, lambda: self.w.run((["-a"] if aug else []) + ["-o", out] + list(q)))
        e.update(rc=rc, err=err.decode("latin-1")[:300])
        self.ev.append(e)

    def op_excerpt(self, q, thr=0):
        """A search printing excerpts, recorded as the search it is."""
        e = {"op": "search", "q": [list(x.encode("latin-1")) for x in q], "thr": thr}
        rc, o, err = self.watched(e, lambda: self.w.run(["-x"] + (["-t"] if thr else []) + list(q)))
        lines = o.decode("latin-1").split("\n")
        res = [lines[i + 1] for i in range(len(lines) - 1) if lines[i] == "-" * 33]
        e.update(rc=rc, res=[self.ident(self.w.stripline(x)) for x in res])
        self.ev.append(e)

    # ---- an IMAP server ----
    def imap_state(self):
        with open(os.path.join(self.w.d, "imap.json"), encoding="latin-1") as f:
            return json.load(f)

    def imap_write(self, s):
        with open(os.path.join(self.w.d, "imap.json"), "w", encoding="latin-1") as f:
            json.dump(s, f)

    def op_imap(self, what, *a):
        """What the server's other users do; afterwards what is visible in the indexed folders is put or deleted."""
        if what == "start":
            shutil.copy(os.path.join(os.path.dirname(os.path.abspath(__file__)), "imapd.py"), self.w.d)
            self.imap = {}
            self.imap_indexed = a[0]
            self.imap_write({"folders": {}, "opts": {}})
            self.rc0["imap_pipe"] = "python3 -S %s %s" % (os.path.join(self.w.d, "imapd.py"), os.path.join(self.w.d, "imap.json"))
            self.w.set_rc(**self.rc0)
            return
        s = self.imap_state()
        F = s["folders"]
        if what == "opts":
            s["opts"] = a[0]
        elif what == "indexed":
            self.imap_indexed = a[0]
        elif what == "folder":
            F.setdefault(a[0], {"uidv": a[1], "next": a[2], "msgs": []})
        elif what == "rmfolder":
            F.pop(a[0], None)
        elif what == "add" and a[0] in F:
            f = F[a[0]]
            f["msgs"].append([f["next"], a[1], a[2]])
            f["next"] += 1 + a[3]
        elif what == "renew" and a[0] in F:
            f = F[a[0]]
            f["uidv"] = a[1]
            if len(a) > 3 and a[3]:
                f["msgs"].reverse()
            for i, m in enumerate(f["msgs"]):
                m[0] = i + a[2]
            f["next"] = len(f["msgs"]) + a[2]
        elif what in ("expunge", "flags") and a[0] in F and F[a[0]]["msgs"]:
            ms = F[a[0]]["msgs"]
            if what == "expunge":
                del ms[a[1] % len(ms)]
            else:
                ms[a[1] % len(ms)][2] = sorted(a[2])
        self.imap_write(s)
        self.imap_sync()

    def imap_visible(self):
        s = self.imap_state()
        return {"%d:%d:%s" % (f["uidv"], m[0], n): m for n, f in s["folders"].items() if n in self.imap_indexed
                for m in f["msgs"] if "\\Deleted" not in m[2]}

    def imap_put(self, k, m, **kw):
        e = {"op": "put", "id": k, "path": list(k.encode("latin-1")), "kind": "imap", "mtime": 0, "size": 0, "sflags": imap_flags(m[2])}
        e.update(kw or {"raw": list(m[1].encode("latin-1"))})
        self.ev.append(e)

    def imap_sync(self):
        now = self.imap_visible()
        for k in sorted(set(self.imap) - set(now)):
            self.ev.append({"op": "del", "id": k})
            if self.stale is not None:
                self.stale.append(k)
        for k in sorted(now):
            if self.imap.get(k) != now[k]:
                self.imap_put(k, now[k])
        self.imap = now

    def imap_unsure(self):
        """What a run may miss as the server does not answer as it should."""
        o = self.imap_state()["opts"]
        res = []
        for k, m in sorted(self.imap.items()):
            fo = k.split(":", 2)[2]
            if "cut" in o or fo in o.get("nolist", []):
                res.append((k, m, 1))
            elif m[0] in o.get("nofetch", []):
                res.append((k, m, 0))
        return res

    def op_imap_index(self, *flags):
        e = {}
        u = self.imap_unsure()
        for k, m, mt in u:
            self.imap_put(k, m, parts=[], damaged=1, unread=1, mtime=mt)
        rc, out, err = self.watched(e, lambda: self.w.index(*flags))
        cut = "cut" in self.imap_state()["opts"]
        self.ev.append(dict({"op": "crash" if rc and cut else "index", "rc": rc, "fast": 1 if "-F" in flags else 0, "how": "connection lost"}, **e))
        if rc:
            self.ev[-1]["err"] = err.decode("latin-1")[:300]
        for k, m, mt in u:
            self.imap_put(k, m)
        if not u:
            self.stale = None

    def op_imap_fsearch(self, *a):
        """A search into a folder while the server answers as its options say."""
        old = self.stale
        u = [k for k, m, mt in self.imap_unsure()]
        if a[1] == "imap" and "cut" in self.imap_state()["opts"]:
            u += sorted({e.get("to", e["id"]) for e in self.ev if e["op"] in ("put", "mv")})
        if u or self.stale is not None:
            self.stale = (self.stale or []) + u
        self.op_fsearch(*a)
        self.ev[-1]["limit"] = 1
        self.stale = old

    def op_maildir(self, name):
        self.w.maildir(name)

    def op_mh(self, name):
        self.w.mh(name)

    def op_put(self, rel, kind, data, mtime):
        b = data.encode("latin-1")
        fn = self.w.put(rel, pack(rel, b) if kind == "mbox" else b, mtime)
        self.ev.append({"op": "put", "id": rel, "path": self.full(rel), "kind": kind, "raw": list(b),
                        "mtime": int(mtime), "size": os.path.getsize(fn)})
        self.last[rel] = self.ev[-1]

    # ---- damage ----
    def op_putd(self, rel, kind, data, mtime, parts):
        """A file with damaged content; parts: what of it is intact, [s, e, loose, texts] each."""
        b = data.encode("latin-1")
        self.w.put(rel, b, mtime)
        e = {"op": "put", "id": rel, "path": self.full(rel), "kind": kind, "mtime": int(mtime), "size": len(b), "damaged": 1,
             "parts": [dict({"s": s, "e": x, "loose": l, "kind": kind}, **{k: [list(y.encode("latin-1")) for y in v] for k, v in t.items()})
                       for s, x, l, t in parts]}
        if kind == "mbox" and parts:
            e["bytes"] = list(b)
        self.ev.append(e)
        self.last[rel] = e

    def op_mode(self, rel, readable):
        """The user loses or regains the right to read a file."""
        os.chmod(self.w.p(rel), 0o644 if readable else 0)
        e = self.last[rel]
        if not readable:
            e = {k: v for k, v in e.items() if k in ("op", "id", "path", "kind", "mtime", "size")}
            e.update(damaged=1, unread=1, parts=[] if e["kind"] == "mbox" else [{"s": -1, "e": -1, "loose": 1}])
        self.ev.append(e)

    def op_dirmode(self, rel, readable):
        os.chmod(self.w.p(rel), 0o755 if readable else 0)

    def op_special(self, rel, what):
        """Something in a folder that is no file."""
        p = self.w.p(rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if what == "fifo":
            os.mkfifo(p)
        elif what == "dir":
            os.mkdir(p)
        elif what == "dangling":
            os.symlink("/nonexistent/x", p)
        elif what == "loop":
            os.symlink(os.path.basename(p), p)
        elif what == "socket":
            import socket
            s = socket.socket(socket.AF_UNIX)
            d = os.getcwd()
            os.chdir(os.path.dirname(p))
            s.bind(os.path.basename(p))
            os.chdir(d)
            s.close()

    def op_sdel(self, rel):
        """A change after the index run that is not followed by another."""
        os.unlink(self.w.p(rel))
        self.stale = (self.stale or []) + [rel]

    def op_strunc(self, rel, n):
        p = self.w.p(rel)
        os.truncate(p, min(n, os.path.getsize(p)))
        self.stale = (self.stale or []) + [rel]

    def op_unstale(self):
        self.stale = self.stale or []

    def op_vanish(self, shim, flags, seed):
        """An index run while which some message file or mbox is removed."""
        r = random.Random(seed)
        env = {"LD_PRELOAD": shim, "VP_PREFIX": self.w.db}
        log = os.path.join(self.w.d, "gates")
        db = None
        if os.path.exists(self.w.db):
            with open(self.w.db, "rb") as f:
                db = f.read()
        self.w.index(*flags, env=dict(env, VP_LOG=log))
        with open(log, encoding="latin-1") as f:
            gates = [x.split(" ", 4) for x in f.read().splitlines()]
        os.unlink(log)
        if db is None:
            if os.path.exists(self.w.db):
                os.unlink(self.w.db)
        else:
            with open(self.w.db, "wb") as f:
                f.write(db)
        g = [x for x in gates if x[1] in ("open", "stat", "mmap") and self.w.strip(x[3]) in self.last and os.path.exists(x[3])]
        if not g:
            return
        opens = [x for x in g if x[1] == "open"]
        g = r.choice(opens if opens and r.random() < 0.7 else g)
        rc, o, err = self.w.index(*flags, env=dict(env, VP_K=g[0], VP_MODE="unlink"))
        rel = self.w.strip(g[3])
        self.ev.append({"op": "index", "rc": rc, "fast": 0, "vanished": rel, "err": err.decode("latin-1")[:300]})
        if os.path.exists(self.w.p(rel)):
            os.unlink(self.w.p(rel))

    def op_putt(self, rel, kind, data, mtime, texts):
        """As put, but the trace gives the texts of the message instead of its bytes."""
        b = data.encode("latin-1")
        self.w.put(rel, b, mtime)
        e = {"op": "put", "id": rel, "path": self.full(rel), "kind": kind, "mtime": int(mtime), "size": len(b)}
        e.update({k: [list(x.encode("latin-1")) for x in v] for k, v in texts.items()})
        self.ev.append(e)
        self.last[rel] = e

    def op_del(self, rel):
        os.unlink(self.w.p(rel))
        self.ev.append({"op": "del", "id": rel})

    def op_mv(self, a, b):
        os.makedirs(os.path.dirname(self.w.p(b)), exist_ok=True)
        os.rename(self.w.p(a), self.w.p(b))
        self.ev.append({"op": "mv", "id": a, "to": b, "path": self.full(b)})

    def op_index(self, *flags):
        e = {}
        rc, out, err = self.watched(e, lambda: self.w.index(*flags))
        if rc not in (0, 1, 2, 3):
            self.w.unlock_stale()
        self.ev.append({"op": "index", "rc": rc, "fast": 1 if "-F" in flags else 0,
                        "purge": 1 if "-p" in flags else 0})
        self.ev[-1].update(e)
        if rc:
            self.ev[-1]["err"] = err.decode("latin-1")[:300]

    def op_search(self, q, thr=0, flags=()):
        e = {}
        rc, lines, err = self.watched(e, lambda: self.w.raw(*(list(flags) + (["-t"] if thr else []) + list(q))))
        if rc not in (0, 1, 2, 3):
            self.w.unlock_stale()
        self.ev.append({"op": "search", "q": [list(x.encode("latin-1")) for x in q], "thr": thr, "rc": rc,
                        "res": [self.ident(x) for x in lines]})
        self.ev[-1].update(e)

    def ident(self, x):
        m = re.match(r"^mbox:(.*) \[(\d+),(\d+)\)$", x)
        if m:
            return [m.group(1), int(m.group(2)), int(m.group(3))]
        return [x, -1, -1]

    def op_dump(self, purged=0, flags=()):
        e = {}
        rc, out, err = self.watched(e, lambda: self.w.run(["-d"] + list(flags)))
        self.ev.append(dict(parse_dump(rc, out, self.w.strip), purged=purged, **e))

    # ---- interrupted runs ----
    def op_save(self):
        try:
            with open(self.w.db, "rb") as f:
                self.dbsave = f.read()
        except FileNotFoundError:
            self.dbsave = None
        self.ev.append({"op": "save"})

    def op_restore(self):
        for x in os.listdir(self.w.d):
            if x.startswith("db"):
                os.unlink(os.path.join(self.w.d, x))
        if self.dbsave is not None:
            with open(self.w.db, "wb") as f:
                f.write(self.dbsave)
        self.ev.append({"op": "restore"})

    def op_faults(self, shim, flags, seed, per, then):
        """Interrupt the index run at its gates: every gate on the database, and some others."""
        r = random.Random(seed)
        env = {"LD_PRELOAD": shim, "VP_PREFIX": self.w.db}
        log = os.path.join(self.w.d, "gates")
        self.op_save()
        self.w.index(*flags, env=dict(env, VP_LOG=log))
        with open(log, encoding="latin-1") as f:
            gates = [x.split(" ", 4) for x in f.read().splitlines()]
        os.unlink(log)
        pts = []
        near = [g for g in gates if g[3].startswith(self.w.db)]
        far = [g for g in gates if not g[3].startswith(self.w.db)]
        for g in near + (r.sample(far, min(len(far), per)) if far else []):
            pts.append((g, "kill"))
            if r.random() < 0.35:
                pts.append((g, r.choice(["sig2", "sig1", "sig3"])))
            if g[2] == "1" and not g[3].startswith(self.w.db + ".lock") and g[1] != "unlink":
                pts.append((g, "fail%d" % r.choice([28, 5, 12, 13])))
        for g, mode in pts:
            self.op_restore()
            rc, o, err = self.w.index(*flags, env=dict(env, VP_K=g[0], VP_MODE=mode))
            self.ev.append({"op": "crash", "rc": rc, "how": "%s at %s %s" % (mode, g[1], g[3].replace(self.w.d, ""))})
            if rc == 999:
                return
            force = ["--unlock"] if rc == -9 else []
            k = r.random()
            if k < 0.5:
                self.op_dump(flags=force)
                force = []
            for o in then:
                if o[0] == "search":
                    self.op_search(o[1], o[2], force)
                    force = []
            if k < 0.25 or k > 0.8:
                self.op_index(*(list(r.choice([[], ["-p"]])) + force))
                if k < 0.1:
                    self.op_dump()
                for o in then[:2]:
                    self.op_search(o[1], o[2])

    def op_rmtree(self, rel):
        shutil.rmtree(self.w.p(rel))


TABLES = {b"To": "t", b"Cc": "c", b"From": "f", b"Subject": "s", b"Body": "b", b"Attachment names": "n"}


def parse_dump(rc, out, strip):
    """The message list and word tables of mairix -d: entries (identity, or <<>> for a vanished message) and, per
    table, the words with the numbers of the entries they occur in."""
    entries, mboxen, words = [], [], {k: [] for k in "tcfsbnmi"}
    cur = None
    for line in out.split(b"\n"):
        m = re.match(rb"^ *(\d+): (DEAD|FILE (.*), size=\d+, tid=-?\d+|IMAP (.*), tid=-?\d+|MBOX (\d+), msg \d+, offset=(\d+), size=(\d+), tid=-?\d+)", line)
        if m and cur is None:
            if m.group(2) == b"DEAD":
                entries.append([])
            elif m.group(3) is not None:
                entries.append([strip(m.group(3).decode("latin-1")), -1, -1])
            elif m.group(4) is not None:
                entries.append([strip(m.group(4).decode("latin-1")), -1, -1])
            else:
                a, n = int(m.group(6)), int(m.group(7))
                entries.append([int(m.group(5)), a, a + n])
            continue
        m = re.match(rb"^ *(\d+): \d+ msgs in (.*)$", line)
        if m and cur is None:
            mboxen.append(strip(m.group(2).decode("latin-1")))
            continue
        m = re.match(rb"^ *(\d+): (dead|DEAD)", line)
        if m and cur is None:
            mboxen.append("")
            continue
        m = re.match(rb"^Contents of <(.*)> table$", line)
        if m:
            cur = TABLES.get(m.group(1), "i")
            continue
        if line.startswith(b"Chain "):
            cur = "i" if line.endswith(b"0") else "m"
            continue
        m = re.match(rb"^Word \d+ : <(.*)>$", line)
        if m and cur:
            words[cur].append([list(m.group(1)), []])
            continue
        if cur and words[cur] and re.match(rb"^ +[0-9 ]*$", line):
            words[cur][-1][1].extend(int(x) + 1 for x in line.split())
        elif cur and words[cur] and re.match(rb"^[0-9 ]+$", line):
            words[cur][-1][1].extend(int(x) + 1 for x in line.split())
    for e in entries:
        if e and isinstance(e[0], int):
            e[0] = mboxen[e[0]] if e[0] < len(mboxen) else "?"
    return {"op": "dump", "rc": rc, "entries": entries, "words": words}


def run_script(scn, d, binary):
    h = Hist(d, binary, scn.get("rc", {}), env=scn.get("env"), today=scn.get("today"), hash_key=scn.get("hash_key", 1))
    for o in scn["ops"]:
        try:
            h.op(o)
        except OSError as x:      # a file the history put there is not there any more
            h.ev.append({"op": "lost", "what": str(x)[:200]})
            break
        if h.ev and h.ev[-1].get("rc") == 999:
            break
    return h.trace
