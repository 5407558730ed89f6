"""Damaged mail.  Each item comes with the texts that are intact: well-formed header fields and undamaged parts."""
import base64
import bz2
import gzip
import lzma
import re

from .mimegen import Mime

CTS = ["", " ", ";", "text", "text/", "/plain", "/", "text/plain;", "text/plain; charset", "text/plain; charset=", "text/plain; charset=\"",
       "text/plain; charset=\"x", "text/plain;;;", "text/plain; =x", "text/plain; name*0*=", "text/plain; name*=utf-8''%", "text/plain; name*=utf-8''%4",
       "text/plain; name*=''", "text/plain; name*=x", "text/plain; name*0=a; name*2=c", "text/plain; name*99999999999=x", "text/plain; name*-1=x",
       "text /plain", "text/ plain", "(c) text/plain", "text/plain (", "text/plain; name=\"\\", "text/plain; name=\"a\\\"", "\xff/\xfe", "text/plain; \x80=\x81",
       "multipart/mixed", "multipart/mixed; boundary", "multipart/mixed; boundary=", "multipart/mixed; boundary=\"\"", "multipart/mixed; boundary=\"never\"",
       "multipart/", "message/rfc822", "message/rfc822; x", "message/partial", "text/html", "text/plain; a" + "=b; a" * 300 + "=c",
       "text/plain; name=" + "x" * 5000, "text/" + "y" * 5000]
CTES = ["", "x-foo", "base64", "quoted-printable", "x-uuencode", "BASE64 ;", "base64; x", "7bit 8bit", "\xff", "\"base64\"", "quoted-printable\r", "(c)", ";", "uuencode", "binary"]
CDS = ["", "attachment", "attachment; filename", "attachment; filename=", "attachment; filename=\"", "attachment; filename*=", "attachment; filename*0*=%", "; filename=x",
       "attachment; filename*0*=utf-8'en'a%4; filename*1=b", "attachment;" + " filename*%d=x;" * 3 % (0, 1, 2), "\"attachment", "attachment; filename*=%zz''x"]
BAD64 = ["=", "====", "A", "AB", "ABC", "A=B=", "!!!!", "QUJD=", "QUJD\n=\n=\nQ", "Q" * 77, "\xff\xfe", "QQ==QQ==", "-_-_", "A\nB\nC\nD", "====QUJD", "QUI", "QUI=x"]
BADQP = ["=", "=\n", "=Z", "=4", "=4Z", "=ZZ", "a=", "a==", "=\r", "=\r\n", "==41", "=4\n1", "=\t\n", "x=20 \n", "=FF=", "=" * 40]
BADUU = ["begin", "begin 644", "begin 644 x", "begin 644 x\n", "begin 644 x\n#86)C\n", "begin 644 x\nM86)C\n`\nend\n", "begin 644 x\n~~~~~\nend\n", "begin 644 x\n\n\nend",
         "begin 644 x\n#86", "begin 644 x\n#\n#\n#\n`\nend", "end\n", "begin 644 x\nend", "begin 644 x\n\x80\x80\n`\nend", "nothing here\n", "begin 644 x\n#86)C"]
BADHTML = ["<", "<a", "</", "<!--", "<!-- x", "&", "&#", "&#x", "&#99999999999;", "&amp", "&zzz;", "<a href=\"", "<a b='>", "<<<>>>", ">", "<!", "<!>", "<!-->", "<?", "&" * 50, "a&b<c",
           "<script>", "<a" + " b" * 200]


class Damage:
    def __init__(self, r, pool):
        self.r, self.pool = r, pool
        self.m = Mime(r, pool)
        self.k = 0

    def fresh(self):
        self.k += 1
        return self.k + 1000

    def text(self, n=None):
        return " ".join(self.pool.word() for _ in range(n if n is not None else self.r.randint(1, 5)))

    def good_part(self):
        """(header lines, body, text)"""
        r = self.r
        t = self.text()
        k = r.random()
        if k < 0.5:
            return (["Content-Type: text/plain"] if k < 0.4 else []), t + "\n", t
        if k < 0.7:
            return ["Content-Type: text/plain", "Content-Transfer-Encoding: base64"], base64.b64encode(t.encode("latin-1")).decode() + "\n", t
        if k < 0.85:
            return ["Content-Type: text/html"], "<p>" + t + "</p>\n", t
        return ["Content-Transfer-Encoding: quoted-printable", "Content-Type: text/plain; charset=utf-8"], t.replace("=", "=3D") + "\n", t

    def junk(self, n=None):
        r = self.r
        n = r.choice([0, 1, 3, 20, 100, 400]) if n is None else n
        k = r.random()
        if k < 0.4:
            return "".join(chr(r.randint(1, 255)) for _ in range(n))
        if k < 0.7:
            return "".join(r.choice("\n\r\t :;=\"<>-.&%#()[]?/\\aA0\x80\xff") for _ in range(n))
        return "".join(r.choice(["\n", "--", "Content-Type:", " multipart/mixed;", " boundary=", "x", "=?", "?=", "utf-8", "?q?", "\r\n", "From ", ": ", "=", "base64"]) for _ in range(n))

    def bad_part(self, b):
        """(header and body of a part that is damaged, as text)"""
        r = self.r
        k = r.random()
        w = self.text(2)
        if k < 0.14:
            return "Content-Type: text/plain\nContent-Transfer-Encoding: base64\n\n" + r.choice(BAD64) + r.choice(["", "\n"])
        if k < 0.24:
            return "Content-Type: text/plain\nContent-Transfer-Encoding: quoted-printable\n\n" + r.choice(BADQP) + r.choice(["", "\n"])
        if k < 0.34:
            return "Content-Type: text/plain\nContent-Transfer-Encoding: x-uuencode\n\n" + r.choice(BADUU) + r.choice(["", "\n"])
        if k < 0.46:
            return "Content-Type: %s\n\n%s\n" % (r.choice(CTS), r.choice([w, "", self.junk(20).replace("\n--", "")]))
        if k < 0.54:
            return "Content-Type: text/plain\nContent-Transfer-Encoding: %s\n\n%s\n" % (r.choice(CTES), w)
        if k < 0.6:
            return "Content-Type: %s\nContent-Disposition: %s\n\n%s\n" % (r.choice(["text/plain", "x/y", r.choice(CTS)]), r.choice(CDS), w)
        if k < 0.68:
            return "Content-Type: text/html\n\n" + self.text(1) + r.choice(BADHTML) + r.choice(["", "\n"])
        if k < 0.76:     # the header is damaged
            return r.choice(["", "\n", "\n\n", "nonsense\n\nx\n", ": x\n\ny\n", "Content-Type: text/plain", "Content-Type: text/plain\n", " folded\n\nx\n", "Content-Type\n\nx\n",
                             "\r\n", "\r", "A:\nB:\n\n", ":\n", "X-\xff: \xfe\n\nx\n", "Content-Type: text/plain\r\n\r\nx\r\n"])
        if k < 0.84:     # nested multipart that never ends or never starts
            n = "in%d" % self.fresh()
            return "Content-Type: multipart/mixed; boundary=%s\n\n%s" % (n, r.choice(["", "--%s" % n, "--%s\n" % n, "--%s\nContent-Type: text/plain\n\n%s\n" % (n, w), "--%s--" % n,
                                                                                    "--%s\n\n%s\n--%s" % (n, w, n), "--%s\n--%s\n--%s\n" % (n, n, n), w, "--%s-\n--%s--x\n" % (n, n)]))
        if k < 0.92:
            return "Content-Type: message/rfc822\n\n" + r.choice(["", "\n", "nonsense\n", "Subject: x", "Subject: x\n", "Subject: x\n\n", "From a b\n\nx\n", self.junk(30).replace("\n--", ""),
                                                                 "Content-Type: multipart/mixed\n\nx\n", "Content-Type: multipart/mixed; boundary=zz%d\n\n--zz\n" % self.fresh()])
        return r.choice(["Content-Type: application/octet-stream\n\n", ""]) + self.junk().replace("--" + b, "")

    def header(self):
        """well-formed header lines and their texts"""
        r = self.r
        s, f = self.text(2), self.text(1)
        h = ["Subject: " + s, "From: " + f]
        if r.random() < 0.3:
            h.append("Date: " + r.choice(["", "x", "32 Jan 2000 1:1:1", "Mon, 1 Foo 2000 1:1:1", "1 Jan 99999999999999 1:1", "99999999999999 Jan 2000 1:1", "Mon,", ",", ",,,", "1", "1 Jan", "1 Jan 2000", "\xff"]))
        if r.random() < 0.2:
            h.append(r.choice(["Message-ID: ", "Message-ID: <", "Message-ID: >", "Message-ID: <<>>", "Message-ID: x", "References: <a <b> c> >", "In-Reply-To: " + "<x" * 200, "Message-Id: <" + "y" * 3000 + ">"]))
        if r.random() < 0.2:
            h.append("To: " + r.choice(["=?", "=?utf-8", "=?utf-8?", "=?utf-8?q", "=?utf-8?q?", "=?utf-8?q?x", "=?utf-8?q?x?", "=?utf-8?b?=?=", "=?utf-8?q?=?=", "=?utf-8?q?=4?=", "=??b??=", "=?x?x?x?=",
                                        "=?utf-8?q?x?= =?", "=?utf-8?b?QQ?=", "=?utf-8?b?Q?=", "=?" * 50, "=?utf-8?q?_?=" * 50, "@", "+-.", "\"", "<", "(((", "\xff\xfe", "x" * 9000]))
        if r.random() < 0.1:
            h.append(r.choice(["Status: \xff", "X-Status:", "Status: " + "R" * 500, "X-Y: " + "z" * 20000, "X-Long:" + "\n  w" * 500]))
        if r.random() < 0.08:
            h.append(">From %s Mon Jan  1 12:34:56 2001" % self.text(1))        # a delivery agent's escaped separator
        r.shuffle(h)
        return h, {"subj": [s], "from": [f]}

    def multi(self):
        """A multipart message with damaged parts; (text, intact texts, [(offset, texts intact up to there)])"""
        r = self.r
        h, t = self.header()
        b = r.choice(["bb%d", "=_%d", "--%d", "x y%d", "%d"]) % self.fresh()
        h.append("Content-Type: multipart/mixed; boundary=\"%s\"" % b)
        s = "\n".join(h) + "\n\n" + r.choice(["", "", "preamble\n"])
        body, marks = [], []
        prev = None
        for _ in range(r.choice([1, 2, 3, 4, 6])):
            s += "--" + b + "\n"
            if prev:
                body.append(prev)
                marks.append((len(s), list(body)))
                prev = None
            if r.random() < 0.55:
                ph, pb, pt = self.good_part()
                s += "".join(x + "\n" for x in ph) + "\n" + pb
                prev = pt
            else:
                p = self.bad_part(b)
                s += p + ("" if p.endswith("\n") or not p else "\n")
        s += "--" + b + "--\n"
        if prev:
            body.append(prev)
            marks.append((len(s), list(body)))
        return s, t, body, marks, len("\n".join(h)) + 2

    def single(self):
        r = self.r
        h, t = self.header()
        k = r.random()
        if k < 0.35:
            body = self.bad_part("zzz")
            if not body.startswith("Content-Type: ") or "\n\n" not in body:
                body = "Content-Type: text/plain\n\n"
            head = body.split("\n\n")[0].split("\n")
            if all(re.match(r"Content-[A-Z][-A-Za-z]+: [^\r\n]*$", x) for x in head):      # not if junk makes an invalid header line
                return "\n".join(h) + "\n" + body, t
        if k < 0.7:
            if r.random() < 0.5:
                h.append("Content-Type: " + r.choice(CTS))
            if r.random() < 0.5:
                h.append("Content-Transfer-Encoding: " + r.choice(CTES))
            if r.random() < 0.5:
                h.append("Content-Disposition: " + r.choice(CDS))
        return "\n".join(h) + "\n\n" + r.choice([self.junk(), r.choice(BAD64), r.choice(BADQP), r.choice(BADUU), r.choice(BADHTML), ""]), t

    def garbage(self):
        r = self.r
        k = r.random()
        if k < 0.15:
            return ""
        if k < 0.3:
            return r.choice(["\n", "\n\n", "\r\n", " ", "x", "\x00", "\x00" * 50, ":", ":\n", "a:b", "a:b\n", "a:b\n\n", "From x\n", "\xff", "Subject:", "Subject: x", "Subject:\n x", "\n" * 500])
        if k < 0.5:
            return self.junk()
        if k < 0.6:
            return "".join(chr(r.randint(0, 255)) for _ in range(r.choice([10, 100, 1000])))
        if k < 0.7:      # an invalid header line
            h, t = self.header()
            h.insert(r.randint(0, len(h)), r.choice(["no colon here", " leading", "\x01\x02", ": empty", ">From a@b Mon Jan  1 2001", "bad name: x", "\xe9: x"]))
            return "\n".join(h) + "\n\n" + self.text() + "\n"
        if k < 0.8:
            return "Subject: x" + r.choice(["\r", "\r\r\n", "\x00", "\x0b", "\x0c"]) + "\nFrom: y\n\nz"
        if k < 0.9:      # deep nesting
            n = r.choice([5, 30, 200])
            f = "b%d-" % self.fresh()
            s = "Content-Type: multipart/mixed; boundary=%s0\n\n" % f
            for i in range(n):
                s += "--%s%d\nContent-Type: multipart/mixed; boundary=%s%d\n\n" % (f, i, f, i + 1)
            return s + "--%s%d\n\nx\n" % (f, n) + "".join("--%s%d--\n" % (f, i) for i in range(n, r.choice([-1, 0, n // 2]), -1))
        n = r.choice([5, 30, 200])
        return "Content-Type: message/rfc822\n\n" * n + r.choice(["", "Subject: x\n\nx\n", "x"])

    def pad(self, s, texts):
        """Sometimes exactly a multiple of the page size, ending in whatever s ends in."""
        r = self.r
        if r.random() < 0.75 or "\n\n" not in s or not texts:
            return s
        n = (-(len(s) + 7)) % 4096
        return "X-Pad: "[:6] + "p" * n + "\n" + s if len(s) % 4096 else s

    def message(self):
        """(bytes as text, intact texts)"""
        r = self.r
        k = r.random()
        if k < 0.4:
            s, t, body, marks, hl = self.multi()
            if r.random() < 0.5:
                cut = r.randint(0, len(s))
                if r.random() < 0.3:
                    cut = r.choice([x for x, _ in marks] + [len(s) - 1, hl, hl - 1])
                s = s[:cut]
                if cut <= hl:
                    return s, {}
                body = []
                for off, b in marks:
                    if off <= cut:
                        body = b
            t = dict(t, body=body)
        elif k < 0.75:
            s, t = self.single()
        else:
            return self.garbage(), {}
        return self.pad(s, t), t

    def mbox(self):
        """A damaged mbox folder: (file name ending, bytes as text)"""
        r = self.r
        sep = "From a@b.cc Mon Jan  1 12:34:56 2001\n"
        msgs = [self.message()[0] for _ in range(r.choice([0, 1, 2, 4]))]
        s = "".join(sep + m + ("" if r.random() < 0.3 else "\n" if m.endswith("\n") else "\n\n") for m in msgs)
        k = r.random()
        if k < 0.2:
            s = r.choice(["", "\n", "From ", "From", "From \n", sep, sep * 3, sep[:-1], sep + "\n", "\x01\x01\x01\x01\n", "\x01\x01\x01\x01", "\x01\x01\x01\x01\n" * 3, "\x01\x01\x01\x01\n" + s, self.junk(), "junk\n" + s, "\x00" + s, "From nobody\n" + s])
        elif k < 0.4:
            s = s[:r.randint(0, len(s))]
        elif k < 0.5:
            s = "".join("\x01\x01\x01\x01\n" + m + r.choice(["\x01\x01\x01\x01\n", "", "\n\x01\x01\x01\x01\n"]) for m in msgs)
        if r.random() < 0.2:
            n = -len(s) % 4096
            s = s + r.choice(["\n", "x", "F", "\x01"]) * n
        k = r.random()
        if k < 0.7:
            return "", s
        ext = r.choice([".gz", ".bz2", ".xz"])
        b = {".gz": lambda x: gzip.compress(x, mtime=0), ".bz2": bz2.compress, ".xz": lzma.compress}[ext](s.encode("latin-1"))
        k = r.random()
        if k < 0.3:
            b = b[:r.randint(0, len(b))]
        elif k < 0.6 and b:
            i = r.randint(0, len(b) - 1)
            b = b[:i] + bytes([b[i] ^ (1 << r.randint(0, 7))]) + b[i + 1:]
        elif k < 0.8:
            b = s.encode("latin-1")
        else:
            b = b + r.choice([b"", b"x", b"\0" * 100, b])
        return ext, b.decode("latin-1")


# ---- histories -----------------------------------------------------------------------------
from . import gen

SEP = "From a@b.cc Mon Jan  1 12:34:56 2001\n"


class History:
    def __init__(self, r):
        self.r = r
        self.pool = gen.Pool(r, n=r.choice([4, 7]))
        self.d = Damage(r, self.pool)
        self.ops = [["maildir", "a"], ["mh", "h"], ["maildir", "u"]]
        self.t = 1000000000
        self.n = 0
        self.files = {}      # rel -> "good" | "bad" | "mbox"
        self.boxes = ["m1", "m2", "c.gz", "c.bz2", "c.xz", "dir.d/x"]

    def tick(self):
        self.t += self.r.choice([1, 60])
        return self.t

    def good_text(self):
        r, w = self.r, self.pool.word
        t = "Subject: %s\nFrom: %s\nMessage-ID: <g%d@x>\n" % (self.d.text(2), w(), self.d.fresh())
        return t + "\n" + self.d.text() + "\n"

    def name(self):
        self.n += 1
        r = self.r
        k = r.random()
        if k < 0.35:
            return "h/%d" % self.n
        if k < 0.5:
            return "a/cur/x%d:2,%s" % (self.n, r.choice(["", "S", "FR"]))
        return "a/%s/x%d" % (r.choice(["cur", "new"]), self.n)

    def good(self, rel=None):
        rel = rel or self.name()
        self.files[rel] = "good"
        self.ops.append(["put", rel, "file", self.good_text(), self.tick()])

    def bad(self, rel=None):
        rel = rel or self.name()
        self.files[rel] = "bad"
        s, t = self.d.message()
        self.ops.append(["putd", rel, "file", s, self.tick(), [[-1, -1, 1, t]]])

    def box(self, rel):
        r = self.r
        self.files[rel] = "mbox"
        if "." in rel or r.random() < 0.25:
            if "/" not in rel and "." in rel and r.random() < 0.4:      # a good compressed one
                s = "".join(SEP + self.good_text() + "\n" for _ in range(r.randint(1, 3)))
                self.ops.append(["put", rel, "mbox", s, self.tick()])
                return
            while True:
                ext, s = self.d.mbox()
                if ext == "" and "." not in rel or "." + rel.split(".")[-1] == ext or rel == "dir.d/x":
                    break
            self.ops.append(["putd", rel, "mbox", s, self.tick(), []])
            return
        s, parts = r.choice(["", "", "junk before\n", "From nobody\n", "\n\n"]), []
        for _ in range(r.randint(2, 6)):
            s += SEP
            a = len(s)
            if r.random() < 0.5:
                g = "Subject: %s\nFrom: %s\n\n%s\n\n" % ((u := self.d.text(2)), (f := self.pool.word()), (b := self.d.text()))
                s += g
                parts.append([a, len(s), 0, {"subj": [u], "from": [f], "body": [b]}])
            else:
                m, _ = self.d.message()
                s += m + ("" if m.endswith("\n") or not m else "\n")
        self.ops.append(["putd", rel, "mbox", s, self.tick(), parts])

    def queries(self, n):
        r, w = self.r, self.pool.word
        for _ in range(n):
            k = r.random()
            f = r.choice(["s:", "b:", "f:", "", "bs:", "a:"])
            if k < 0.6:
                q = [f + w()]
            elif k < 0.75:
                q = [f + w() + r.choice(["/", ","]) + w()]
            elif k < 0.85:
                q = [f + w()[:5] + "="]
            else:
                q = ["s:" + w(), "b:" + w()]
            self.ops.append(["search", q] if r.random() < 0.85 else ["excerpt", q])

    def scenario(self, shim, rounds):
        r = self.r
        self.ops.append(["rc", {"mformat": r.choice(["maildir", "mh", "mbox"]), "mfolder": "unused"}])
        fmt = self.ops[-1][1]["mformat"]
        self.good("a/cur/first")
        unread, udir = [], False
        for i in range(rounds):
            for _ in range(r.choice([1, 3, 6])):
                k = r.random()
                old = sorted(x for x in self.files if x != "a/cur/first" and x not in unread)
                files = [x for x in old if self.files[x] != "mbox"]
                if k < 0.15:
                    self.good()
                elif k < 0.5:
                    self.bad()
                elif k < 0.58 and files:
                    self.bad(r.choice(files))
                elif k < 0.66 and files:
                    self.good(r.choice(files))
                elif k < 0.72 and files:
                    x = r.choice(files)
                    del self.files[x]
                    self.ops.append(["del", x])
                elif k < 0.8:
                    if r.random() < 0.5 and unread:
                        self.ops.append(["mode", unread.pop(r.randrange(len(unread))), 1])
                    elif old:
                        x = r.choice(old)
                        unread.append(x)
                        self.ops.append(["mode", x, 0])
                elif k < 0.85:
                    self.n += 1
                    self.ops.append(["special", r.choice(["a/cur/y%d", "a/new/y%d", "h/%d"]) % self.n, r.choice(["fifo", "dir", "dangling", "loop", "socket"])])
                else:
                    x = r.choice(self.boxes)
                    if x not in unread:
                        self.box(x)
            flags = r.choice([[], [], [], ["-p"], ["-v"]])
            if r.random() < 0.25:
                self.ops.append(["vanish", shim, flags, r.randint(0, 1 << 30)])
                self.queries(3)
                self.ops.append(["index"])
                self.queries(2)
                break
            if r.random() < 0.1:
                # a whole folder that cannot be read
                udir = not udir
                self.ops.append(["dirmode", r.choice(["u/cur", "u", "u/new"]), 0] if udir else ["dirmode", "u", 1])
            self.ops.append(["index"] + flags)
            self.queries(4)
            if r.random() < 0.25:
                self.ops += [["unstale"], ["fsearch", "out", fmt, [r.choice(["s:", "", "b:"]) + self.pool.word()]]]
        else:
            if r.random() < 0.6:
                for x in sorted(self.files):
                    if x in unread:
                        continue
                    k = r.random()
                    if k < 0.15:
                        self.ops.append(["sdel", x])
                    elif k < 0.3:
                        self.ops.append(["strunc", x, r.choice([0, 1, 10, 50, 100, 4096])])
                self.ops.append(["unstale"])
                for _ in range(2):
                    self.ops.append(["fsearch", "out", fmt, [r.choice(["s:", "", "b:"]) + self.pool.word()]])
                self.queries(1)
        return {"rc": {"maildir": "a:u", "mh": "h", "mbox": ":".join(self.boxes)}, "ops": self.ops, "hash_key": r.randint(0, 2**31 - 1)}
