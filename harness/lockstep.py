"""Several real mairix processes on one database, stepped one file system call at a time."""
import os, select, signal, socket, subprocess, time

from .world import World


class Proc:
    def __init__(self, i, kind, forced):
        self.i, self.kind, self.forced = i, kind, forced
        self.pending = None      # the call it waits to make
        self.buf = b""
        self.conn = self.p = None
        self.over = False


class Lockstep:
    def __init__(self, d, binary, shim, folder="maildir", n=6):
        self.w = World(d, binary, maildir="a", mfolder="out", mformat="mh")
        self.w.maildir("a")
        for i in range(n):
            self.w.put("a/cur/%d.m:2,S" % i, "Subject: w%d\nMessage-ID: <%d@x>\n\nall v%d\n" % (i, i, i), 1000000000 + i)
        self.n = n
        self.d = d
        self.shim = shim
        self.path = os.path.join(d, "s")
        self.srv = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        self.srv.bind(self.path)
        self.srv.listen(8)
        self.ev = []
        self.procs = []
        self.w.index()

    def name(self, path):
        db = self.w.db
        if path == "-" or not path.startswith(db):
            return {"name": "", "lock": True}
        if path == db + ".lock":
            return {"name": "lock", "lock": True}
        return {"name": "db" + path[len(db):], "lock": path.startswith(db + ".lock")}

    def args(self, kind):
        return {"index": ["--force-hash-key-new-database", "1"], "purge": ["-p"], "search": ["-r", "all"], "none": ["-r", "zzz"],
                "fsearch": ["s:w1"], "dump": ["-d"], "refuse": ["-o", "a", "all"], "nofolder": ["-o", "x/y/z", "all"]}[kind]

    def start(self, kind, forced=False):
        q = Proc(len(self.procs) + 1, kind, forced)
        self.procs.append(q)
        self.n += 1
        if kind in ("index", "purge"):      # something to do
            self.w.put("a/cur/n%d:2,S" % self.n, "Subject: n%d\n\nall\n" % self.n, 1000001000 + self.n)
        self.ev.append({"op": "start", "p": q.i, "kind": "search" if kind in ("search", "none", "fsearch") else
                        "fail" if kind in ("refuse", "nofolder") else "index", "forced": forced})
        env = dict(self.w.env, LD_PRELOAD=self.shim, VP_SOCK=self.path, VP_ID=str(q.i), VP_PREFIX=self.w.db)
        q.err = open(os.path.join(self.d, "err%d" % q.i), "w+b")
        q.p = subprocess.Popen([self.w.bin, "-f", self.w.rcfile] + (["--unlock"] if forced else []) + self.args(kind), cwd=self.d, env=env,
                               stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=q.err)
        if not select.select([self.srv], [], [], 20)[0]:
            q.p.kill()
            raise RuntimeError("process did not connect")
        q.conn, _ = self.srv.accept()
        self.advance(q)
        return q

    def line(self, q, timeout):
        """Next message of q; None if it has ended, "" on timeout."""
        end = time.time() + timeout
        while b"\n" not in q.buf:
            left = end - time.time()
            if left <= 0 or not select.select([q.conn], [], [], left)[0]:
                return ""
            try:
                x = q.conn.recv(4096)
            except ConnectionResetError:
                x = b""
            if not x:
                return None
            q.buf += x
        l, q.buf = q.buf.split(b"\n", 1)
        return l.decode("latin-1")

    def advance(self, q, timeout=20):
        """Let q run to its next gate or its end."""
        while True:
            l = self.line(q, timeout)
            if l is None:
                self.ended(q)
                return
            if l == "":
                q.p.kill()
                q.hung = True
                self.ended(q)
                return
            if l.startswith("hello"):
                continue
            if l.startswith("call "):
                _, call, a, b = l.split(" ", 3)
                q.pending = (call, a, b)
                return

    def ended(self, q, killed=False):
        rc = q.p.wait()
        q.over = True
        q.pending = None
        q.conn.close()
        q.err.seek(0)
        said = bool(q.err.read().strip())
        q.err.close()
        if rc < 0 and (killed or rc == -signal.SIGTERM):
            self.ev.append({"op": "killed", "p": q.i})
        else:
            self.ev.append({"op": "exit", "p": q.i, "rc": rc, "said": said})

    def go(self, q):
        """Let q make the call it waits for."""
        if q.over:
            return
        call, a, b = q.pending
        q.conn.send(b"g")
        l = self.line(q, 20)
        if call == "mask":      # no call on a file
            if l is None:
                self.ended(q)
            elif l.startswith("call "):
                _, c, a, b = l.split(" ", 3)
                q.pending = (c, a, b)
            else:
                self.advance(q)
        elif l is not None and l.startswith("done "):
            r = int(l.split()[1])
            self.ev.append({"op": "call", "p": q.i, "call": call, "a": self.name(a), "b": self.name(b), "ok": r >= 0})
            self.advance(q)
        elif l is None:
            self.ended(q)
        else:      # a handler broke in
            self.ev.append({"op": "call", "p": q.i, "call": call, "a": self.name(a), "b": self.name(b), "ok": False})
            if l.startswith("call "):
                _, c, a, b = l.split(" ", 3)
                q.pending = (c, a, b)
            else:
                self.advance(q)

    def sig(self, q, s):
        if q.over:
            return
        st = open("/proc/%d/status" % q.p.pid).read()
        mask = {k: int(v, 16) for k, v in (x.split(":\t") for x in st.splitlines() if x.startswith("Sig") and "Q" not in x)}
        bit = 1 << (s - 1)
        self.ev.append({"op": "signal", "p": q.i})
        q.p.send_signal(s)
        if not mask["SigBlk"] & bit and not mask["SigIgn"] & bit:
            l = self.line(q, 3)
            if l is None:
                self.ended(q)
            elif l.startswith("call "):
                _, call, a, b = l.split(" ", 3)
                q.pending = (call, a, b)

    def kill(self, q, s=signal.SIGKILL):
        if q.over:
            return
        q.p.send_signal(s)
        self.ended(q, killed=True)

    def finish(self):
        for q in self.procs:
            k = 0
            while not q.over:
                self.go(q)
                k += 1
                if k > 500:
                    self.kill(q)
        left = [self.name(os.path.join(self.d, x))["name"] for x in sorted(os.listdir(self.d)) if x.startswith("db.lock")]
        self.ev.append({"op": "left", "names": left})
        # afterwards: a plain run works if nobody was killed holding the lock, a forced one always
        q = self.start("index")
        while not q.over:
            self.go(q)
        if "lock" in left:
            q = self.start("search", True)
            while not q.over:
                self.go(q)
            q = self.start("index")
            while not q.over:
                self.go(q)
        for q in self.procs:
            if q.p.poll() is None:
                q.p.kill()
        self.srv.close()


def run(s, d, binary, shim):
    x = Lockstep(d, binary, shim)
    try:
        qs = []
        for step in s["plan"]:
            k = step[1]
            if step[0] == "start":
                while len(qs) <= k:
                    qs.append(None)
                qs[k] = x.start(step[2])
            elif k < len(qs) and qs[k]:
                if step[0] == "go":
                    for _ in range(step[2]):
                        x.go(qs[k])
                elif step[0] == "sig":
                    x.sig(qs[k], step[2])
                elif step[0] == "kill":
                    x.kill(qs[k], step[2])
        x.finish()
    finally:
        for q in x.procs:
            if q.p and q.p.poll() is None:
                q.p.kill()
                q.p.wait()
    return {"ev": x.ev}
