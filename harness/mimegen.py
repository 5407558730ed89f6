"""Random MIME messages.  What they mean is decided by the specification."""
import base64, binascii, re

from . import gen

TEXTSEP = [" ", " ", "\n", ", ", ". ", "-", "\xe9", "/"]


def case(r, s):
    return gen.hname(r, s)


class Mime:
    cut_off = False      # are multiparts without an end boundary allowed? (in an mbox they swallow the messages after them)

    def __init__(self, r, pool):
        self.r, self.pool, self.n, self.stack = r, pool, 0, []

    # ---- transfer encodings ----
    def qp(self, s):
        r = self.r
        out, col = [], 0
        p = r.choice([0.02, 0.15, 0.5])
        for c in s:
            o = ord(c)
            if c == "\n":
                if out and out[-1] in (" ", "\t"):
                    out[-1] = "=20" if out[-1] == " " else "=09"
                out.append("\n")
                col = 0
                continue
            if c == "=" or o > 126 or (o < 32 and c != "\t") or r.random() < p:
                out.append(("=%02X" if r.random() < 0.8 else "=%02x") % o)
            else:
                out.append(c)
            col += 1
            if r.random() < 0.04:
                out.append("=" + r.choice(["", "", " ", "\t ", "\r"]) + "\n")
                col = 0
        return "".join(out)

    def b64(self, s):
        r = self.r
        e = base64.b64encode(s.encode("latin-1")).decode()
        w = r.choice([76, 76, 4, 20, 61, 1000])
        lines = [e[i:i + w] for i in range(0, len(e), w)]
        nl = r.choice(["\n", "\n", "\n", "\r\n", " \n"])
        return nl.join(lines) + (nl if r.random() < 0.8 else "")

    def uu(self, s):
        r = self.r
        b = s.encode("latin-1")
        out = []
        if r.random() < 0.3:
            out.append(r.choice(["", "some text", "beginning"]))
        out.append("begin %s %s" % (r.choice(["644", "600"]), r.choice(["a.txt", "file name", "x"])))
        w = r.choice([45, 45, 1, 7, 44])
        for i in range(0, len(b), w):
            l = binascii.b2a_uu(b[i:i + w], backtick=r.random() < 0.5).decode().rstrip("\n")
            out.append(l)
        out.append(r.choice(["`", " "]))
        out.append("end")
        if r.random() < 0.2:
            out.append(self.pool.word())
        return "\n".join(out) + "\n"

    def encode(self, s):
        """(Content-Transfer-Encoding or None, encoded)"""
        k = self.r.choice(["none", "7bit", "8bit", "qp", "qp", "b64", "b64", "uu", "binary"])
        if k == "none":
            return None, s
        if k == "7bit" and self.r.random() < 0.2:
            return self.r.choice(["7-bit", "7 bit", "8-bit", "8 bit", "x-unknown"]), s
        if k in ("7bit", "8bit", "binary"):
            return self.r.choice([k, k, k.upper()]), s
        if k == "qp":
            return case(self.r, "quoted-printable"), self.qp(s)
        if k == "b64":
            return case(self.r, "base64"), self.b64(s)
        return case(self.r, "x-uuencode"), self.uu(s)

    # ---- header values ----
    def encword(self, s):
        r = self.r
        cs = r.choice(["utf-8", "iso-8859-1", "ISO-8859-15", "US-ASCII", "UTF-8*en", "gbk", "x", "windows-1252", "koi8-r"])
        if r.random() < 0.04:       # not an encoded word, or not one we know
            return r.choice(["=?%s?X?%s?=", "=?%s?QQ?%s?=", "=?%s?Q?%s", "=?%s %s", "=?%s?%s?=", "?=%s=?%s"]) % (cs, s)
        if r.random() < 0.5:
            out = []
            for c in s:
                o = ord(c)
                if c == " ":
                    out.append(r.choice(["_", "_", "=20"]))
                elif c in "=?_" or o > 126 or o < 33 or r.random() < 0.15:
                    out.append(("=%02X" if r.random() < 0.8 else "=%02x") % o)
                else:
                    out.append(c)
            return "=?%s?%s?%s?=" % (cs, r.choice("Qq"), "".join(out))
        return "=?%s?%s?%s?=" % (cs, r.choice("Bb"), base64.b64encode(s.encode("latin-1")).decode())

    def headertext(self, n):
        r, p = self.r, self.pool
        out = []
        for _ in range(n):
            w = " ".join(p.word() for _ in range(r.choice([1, 1, 2])))
            if r.random() < 0.2:        # a word cut into several encoded words
                i = r.randint(0, len(w))
                w = r.choice([" ", " ", "\n ", "  ", "\n\t", "", " - "]).join(self.encword(x) for x in (w[:i], w[i:]))
            elif r.random() < 0.5:
                w = self.encword(w + r.choice(["", "", " ", "\xe9"]))
            out.append(w)
        return r.choice([" ", " ", "  ", "\n ", "\n\t", ""]).join(out)

    def address(self):
        r, p = self.r, self.pool
        if r.random() < 0.5:
            return p.addr()
        return "%s <%s@%s.%s>" % (self.encword("%s %s" % (p.word(), p.word())), p.word(), p.word(), p.word())

    def filename(self):
        r, p = self.r, self.pool
        if r.random() < 0.06:
            return ".".join(p.word() for _ in range(r.randint(4, 12)))
        return r.choice(["%s.txt", "%s.tar.gz", "%s", "my %s.doc", "%s-1.pdf", "%s.TXT", "(%s).c", "%s\xe9.c", "\xe9%s", "%s;1.c"]) % p.word()

    def token(self, s):
        return all(c.isascii() and (c.isalnum() or c in "._-") for c in s) and s

    def param(self, name, val):
        """A parameter carrying val in one of the spellings of RFC 2045 and 2231."""
        r = self.r
        name = case(r, name)
        k = r.random()
        if k < 0.3 and self.token(val):
            return ["%s=%s" % (name, val)]
        if k < 0.75:
            return ["%s%s%s\"%s\"" % (name, r.choice(["", "", " "]) if False else "", "=", val)]
        pe = r.choice([0, 0, 0.3])
        esc = ["%s" % c if (c.isascii() and c.isalnum() or c in "._-") and r.random() >= pe else ("%%%02X" if r.random() < 0.7 else "%%%02x") % ord(c) for c in val]
        lang = r.choice(["''", "''", "''", "'en'", "'en-us'"])
        cs = r.choice(["utf-8", "us-ascii", "iso-8859-1", "UTF-8", ""] if lang == "''" else ["utf-8", "iso-8859-1"])
        if not val or r.random() < 0.05:
            return ["%s=\"%s\"" % (name, val)]
        if k < 0.85:
            out = ["%s*=%s%s%s" % (name, cs, lang, "".join(esc))]
            if r.random() < 0.3:    # both ways
                out.insert(r.randint(0, 1), "%s=\"%s\"" % (name, val))
            return out
        n = r.choice([2, 2, 3, len(val)])
        n = min(n, len(val), 15)
        cuts = [0] + sorted(r.sample(range(1, len(val)), n - 1)) + [len(val)]
        out = []
        enc = r.random() < 0.5
        for j in range(n):
            a, b = cuts[j], cuts[j + 1]
            if enc and (j == 0 or r.random() < 0.8):
                out.append("%s*%d*=%s%s" % (name, j, cs + lang if j == 0 else "", "".join(esc[a:b])))
            elif self.token(val[a:b]) and r.random() < 0.3:
                out.append("%s*%d=%s" % (name, j, val[a:b]))
            else:
                out.append("%s*%d=\"%s\"" % (name, j, val[a:b]))
        if r.random() < 0.2:
            out.insert(r.randint(1, n), r.choice(["size=12", "x-y=\"z\"", "creation-date=\"Mon, 1 Jan 2001\""]))
        return out

    def value(self, main, params):
        r = self.r
        out = case(r, main) if r.random() < 0.6 else main
        for p in params:
            out += r.choice(["; ", "; ", ";\n\t", ";\n  ", ";"]) + p
        return out

    # ---- parts ----
    def html(self, n):
        r, p = self.r, self.pool
        out = [r.choice(["<html><body>", "<HTML>\n", ""])]
        for _ in range(n):
            k = r.random()
            if k < 0.2:
                out.append("<a href=\"%s\">%s</a>" % (p.word(), p.word()))
            elif k < 0.3:
                out.append("<%s>" % p.word())
            elif k < 0.4:
                out.append("%s<b>%s</b>" % (p.word(), p.word()))
            elif k < 0.5:
                out.append("<!-- %s -->" % p.word())
            elif k < 0.55:
                out.append("<br\n%s>" % p.word())
            elif k < 0.57:
                out.append(r.choice(["<%s <b>%s", "<%s %s", "%s>%s", "<!-- > %s -- %s -->", "<%s='>'>%s", "<>%s<>%s", "<%s\n<\n%s>", "<<%s>>%s"]) % (p.word(), p.word()))
            elif k < 0.6:
                out.append("&lt;%s&gt;&nbsp;" % p.word())
            else:
                out.append(p.word())
            out.append(r.choice(["", " ", "\n", ", "]))
        if r.random() < 0.05:
            out.append("< %s" % p.word())
        return "".join(out)

    def text(self, n):
        if self.r.random() < 0.04:
            return self.pool.text(n, seps=TEXTSEP) + "\0" + self.pool.text(n, seps=TEXTSEP + ["\0", "\0"])
        return self.pool.text(n, seps=TEXTSEP) + self.r.choice(["", "\n"])

    def part(self, depth):
        """(list of header lines, body)"""
        r, p = self.r, self.pool
        k = r.random()
        if depth > 0 and k < 0.3:
            return self.multipart(depth)
        if depth > 0 and k < 0.42:
            return self.attached(depth)
        h = []
        params = []
        att = r.random() < 0.4
        inline = r.random() < 0.2
        if r.random() < 0.3:
            params += ["charset=" + r.choice(["utf-8", "\"iso-8859-1\"", "us-ascii"])]
        if r.random() < 0.4:
            params += self.param("name", self.filename())
        if r.random() < 0.1:
            params += [r.choice(["format=flowed", "x=\"\"", "charset=\"\"", "type=\"a;b=c\""])]
        t = r.choice(["text/plain", "text/plain", "text/plain", "text/html", "text/html", "application/octet-stream", "image/png",
                      "text/calendar", "application/pdf", "message/delivery-status", None])
        if t == "text/html":
            body = self.html(r.randint(0, 8))
        else:
            body = self.text(r.choice([0, 1, 3, 8]))
        if r.random() < 0.04:
            body = body * r.randint(2, 20)
        if t:
            h.append("%s: %s" % (case(r, "Content-Type"), self.value(t, params)))
        cte, body = self.encode(body)
        if cte:
            h.append("%s:%s%s" % (case(r, "Content-Transfer-Encoding"), r.choice([" ", " ", ""]), cte))
        if att or inline:
            d = []
            if r.random() < 0.75:
                d = self.param("filename", self.filename())
            h.append("%s: %s" % (case(r, "Content-Disposition"), self.value("attachment" if att else "inline", d)))
        if r.random() < 0.2:
            h.append(r.choice(["Content-ID: <%s@%s>" % (p.word(), p.word()), "Content-Description: %s" % p.word(), "X-Foo: %s" % p.word()]))
        r.shuffle(h)
        return h, body

    def boundary(self):
        r = self.r
        self.n += 1
        if self.stack and r.random() < 0.2:      # like that of the enclosing part, but longer
            b = self.stack[-1]
            return b + r.choice(["x", "1", ".a", "-", "=_%d" % self.n])
        return r.choice(["=_b%d", "bnd%d", "----=_Part_%d", "%d", "a'b(%d)+_,-./:=?", "x%d y", "0%dx"]) % self.n

    def multipart(self, depth):
        r, p = self.r, self.pool
        b = self.boundary()
        self.stack.append(b)
        bp = 'boundary="%s"' % b if not self.token(b) or r.random() < 0.7 else "boundary=" + b
        bp = case(r, bp.split("=")[0]) + "=" + bp.split("=", 1)[1]
        h = ["%s: %s" % (case(r, "Content-Type"), self.value("multipart/" + r.choice(["mixed", "alternative", "related", "signed", "digest", "report"]),
                                                              ([] if r.random() < 0.8 else ["type=\"text/html\""]) + [bp]))]
        if r.random() < 0.2:
            h.append("Content-Transfer-Encoding: " + r.choice(["7bit", "8bit"]))
        out = []
        if r.random() < 0.4:
            out.append(r.choice(["This is a multi-part message in MIME format. %s\n" % p.word(), "\n", p.word() + "\n"]))
        nl = r.choice(["\n"] * 16 + ["\r\n", "\r\n", " \n", "\t \r\n"])
        for _ in range(r.choice([0, 1, 2, 2, 3, 4])):
            ph, pb = self.part(depth - 1)
            out.append("--%s%s" % (b, nl))
            text = not re.search("base64|uuencode", "".join(ph) + pb, re.I)       # what junk after encoded data means is left open
            if text and r.random() < 0.06:
                pb += "\n--%s" % r.choice([b[:-1] or "q", b[:-1] + "x", b + "x", b + " x", b + "-x", b[1:]])      # resembles a boundary
            if text and r.random() < 0.06:
                pb += "\n --%s" % b
            if text and r.random() < 0.03:
                pb += "\n%s\0%s" % (r.choice(["--%sx", "--%s", "x--%s"]) % b, p.word())
            if pb in ("", "\n") and ph and r.random() < 0.5:     # no body at all: the empty line before the boundary ends the header
                out.append("".join(x + "\n" for x in ph) + "\n")
                continue
            out.append("".join(x + "\n" for x in ph) + "\n" + pb + ("\n" if not pb.endswith("\n") or r.random() < 0.5 else ""))
        self.stack.pop()
        if not self.cut_off or r.random() < 0.92:
            out.append("--%s--%s" % (b, r.choice(["\n", "\n", "", "\n%s\n" % p.word()])))
        elif r.random() < 0.2:      # cut off after, or within, a boundary
            out.append(r.choice(["--%s", "--%s\n", "--%s-", "-", "--"]).replace("%s", b))
        return h, "".join(out)

    def attached(self, depth):
        r = self.r
        m = self.message(depth - 1)
        params = self.param("name", self.filename()) if r.random() < 0.3 else []
        h = ["%s: %s" % (case(r, "Content-Type"), self.value("message/rfc822", params))]
        if r.random() < 0.3:
            h.append("Content-Disposition: " + self.value(r.choice(["attachment", "inline"]),
                                                          self.param("filename", self.filename()) if r.random() < 0.6 else []))
        if r.random() < 0.2:
            return h + ["Content-Transfer-Encoding: base64"], self.b64(m)
        return h, m

    def message(self, depth=2):
        r, p = self.r, self.pool
        h = []
        if r.random() < 0.5:
            h.append("%s: %s" % (case(r, "Subject"), self.headertext(r.randint(0, 3))))
        if r.random() < 0.5:
            h.append("%s: %s" % (case(r, "From"), self.address()))
        if r.random() < 0.06:
            h.append(r.choice(["Subject: %s", "From: %s@x", "Message-ID: <%s@x>"]) % p.word())
        for n in ("To", "Cc"):
            for _ in range(r.choice([0, 0, 1, 1, 2])):
                h.append("%s: %s" % (case(r, n), ",\n ".join(self.address() for _ in range(r.choice([1, 1, 2])))))
        if r.random() < 0.4:
            h.append("Message-ID: <%s.%s@x>" % (p.word(), p.word()))
        if r.random() < 0.2:
            h.append("References: <%s@x> <%s@y>" % (p.word(), p.word()))
        if r.random() < 0.3:
            h.append("Date: " + gen.date_header(r))
        if r.random() < 0.6:
            h.append("MIME-Version: 1.0")
        ph, pb = self.part(depth) if r.random() < 0.4 else self.multipart(depth) if depth else self.part(0)
        h += ph
        r.shuffle(h)
        if not h:
            h = ["X-Nothing: 1"]
        return "\n".join(h) + "\n\n" + pb
