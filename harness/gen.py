"""Random mail and queries.  Texts are latin-1 strings; what they mean is decided by the specification."""
import base64, binascii, quopri

SEPS = [" ", " ", " ", "  ", "\t", ", ", ".", "-", "/", ":", ";", "(", ")", "'", "\"", "!", "?", "=", "+", "*", "&", "%",
        "\xe9", "\xa0", "\xff", "\x80", "<", ">", "[", "]", "{", "}", "|", "\\", "^", "~", "$", "#", "@", "`", "\x01", "\x7f", ". ", " - "]
ALPHA = "abcdefghijklmnopqrstuvwxyz"


class Pool:
    """A pool of words that are easily confused with each other."""

    def __init__(self, r, n=10, maxlen=9, long=False):
        self.r = r
        base = []
        while len(base) < n:
            k = r.random()
            if k < 0.55 or not base:
                w = "".join(r.choice("abcxyz") for _ in range(r.randint(1, maxlen)))
            elif k < 0.65:
                w = r.choice(base) + r.choice(["s", "0", "_", "x"])
            elif k < 0.72:
                w = r.choice(base)[:-1] or "q"
            elif k < 0.8:
                w = str(r.randint(0, 99999))
            elif k < 0.86:
                w = r.choice(["_", "__", "_a", "a_", "z9_9", "0", "9", "a", "z", "A", "Z", "m_1"])
            elif k < 0.92:
                w = r.choice(base)[::-1]
            else:
                w = "".join(r.choice(ALPHA + "0123456789_") for _ in range(r.randint(1, 24)))
            base.append(w)
        if long:
            w = "".join(r.choice(ALPHA + "0123456789_") for _ in range(r.choice([31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 256, 300])))
            base += [w, w[:-1] + "q", w[:-1]]
        self.words = base

    def word(self):
        w = self.r.choice(self.words)
        k = self.r.random()
        if k < 0.15:
            return w.upper()
        if k < 0.3:
            return "".join(c.upper() if self.r.random() < 0.5 else c for c in w)
        return w

    def text(self, n, seps=SEPS, nl=None):
        out = []
        for i in range(n):
            out.append(self.word())
            out.append(nl if nl and self.r.random() < 0.2 else self.r.choice(seps))
        if out and self.r.random() < 0.7:
            out.pop()
        if self.r.random() < 0.15:
            out.insert(0, self.r.choice(seps))
        return "".join(out)

    def addr(self):
        r = self.r
        loc = r.choice(["%s", "%s.%s", "%s+%s", "%s-%s", "%s_%s", "%s.%s-%s"])
        loc = loc % tuple(self.word() for _ in range(loc.count("%s")))
        dom = r.choice(["%s.%s", "%s", "%s-%s.%s"])
        dom = dom % tuple(self.word() for _ in range(dom.count("%s")))
        a = loc + "@" + dom
        if r.random() < 0.12:
            a = r.choice([loc, self.word(), loc + "@", "@" + dom, loc + "@" + dom + ".", loc + "%" + self.word() + "@" + dom, ".." + a, loc + "!" + a])
        k = r.random()
        if k < 0.3:
            return a
        if k < 0.5:
            return "<%s>" % a
        if k < 0.75:
            return "%s %s <%s>" % (self.word(), self.word(), a)
        if k < 0.9:
            return '"%s, %s" <%s>' % (self.word(), self.word(), a)
        if k < 0.93:
            return "%s: %s;" % (self.word(), a)
        return "%s (%s)" % (a, self.word())

    def addrs(self):
        return ", ".join(self.addr() for _ in range(self.r.choice([0, 1, 1, 1, 2, 3])))

    def variant(self, w):
        """A word near w."""
        r = self.r
        k = r.random()
        if k < 0.25 and len(w) > 1:
            return w[:-1]
        if k < 0.45 and len(w) > 1:
            return w[1:]
        if k < 0.6:
            return w + r.choice("sx0_")
        if k < 0.7:
            return r.choice("sx0_") + w
        if k < 0.85 and w:
            i = r.randrange(len(w))
            return w[:i] + r.choice("abcxyz0") + w[i + 1:]
        return w.swapcase()


def fold(r, v):
    """Fold a header value at some white space."""
    out = []
    for c in v:
        if c == " " and r.random() < 0.18:
            out.append("\n" + r.choice([" ", "\t", "  ", " \t "]))
        else:
            out.append(c)
    return "".join(out)


def hname(r, n):
    k = r.random()
    return n if k < 0.7 else n.upper() if k < 0.8 else n.lower() if k < 0.9 else "".join(c.upper() if r.random() < .5 else c.lower() for c in n)


MONTHS = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]


def date_header(r, y=None, m=None, d=None):
    y = y or (r.randint(1971, 2037) if r.random() < 0.8 else r.randint(2038, 2105))
    m = m or r.randint(1, 12)
    d = d or r.randint(1, 28)
    wd = r.choice(["Mon, ", "Tue,", "Sun , ", "", "mon, "])
    mon = MONTHS[m - 1]
    mon = r.choice([mon, mon, mon.upper(), mon.lower()])
    yy = str(y)
    if 1970 <= y <= 2069 and r.random() < 0.2:
        yy = yy[2:]
    day = r.choice(["%d", "%02d"]) % d
    sp = r.choice([" ", " ", " ", "  "])
    return "%s%s%s%s%s%s %02d:%02d:%02d %s" % (wd, day, sp, mon, sp, yy, r.randint(0, 23), r.randint(0, 59), r.randint(0, 59),
                                          r.choice(["+0000", "-0800", "GMT", "+1400", "-1200 (XYZ)", "EST", "+0100 (Paris, Madrid)", "", "(a,1)"]))


def simple_message(r, pool, nbody=12, crlf=False):
    h = []

    def add(n, v, dofold=True):
        sp = r.choice([" ", " ", " ", "", "  ", "\t"])
        h.append("%s:%s%s" % (hname(r, n), sp, fold(r, v) if dofold else v))
    for _ in range(r.choice([0, 1, 1, 1, 2, 3])):
        add("To", pool.addrs())
    for _ in range(r.choice([0, 0, 1, 1, 2])):
        add("Cc", pool.addrs())
    if r.random() < 0.85:
        add("From", pool.addr())
    if r.random() < 0.85:
        add("Subject", pool.text(r.choice([0, 1, 1, 2, 3, 5]), seps=[s for s in SEPS if s not in ("=", "?")]))
    if r.random() < 0.7:
        add("Date", date_header(r), False)
    if r.random() < 0.5:
        add("Message-ID", "<%s@%s>" % (pool.word(), pool.word()), False)
    if r.random() < 0.12:       # headers that should be there once only
        for _ in range(r.choice([1, 1, 2])):
            k = r.choice(["From", "Subject", "Subject", "Date", "Message-ID"])
            add(k, {"From": pool.addr(), "Subject": pool.text(2, seps=[" ", "-"]), "Date": date_header(r), "Message-ID": "<%s@%s>" % (pool.word(), pool.word())}[k], False)
    for _ in range(r.choice([0, 0, 1, 2])):
        add(r.choice(["X-Foo", "Received", "Reply-To", "Bcc", "Sender", "X-To", "Tox", "X-Subject", "Comments", "Errors-To"]), pool.text(3))
    r.shuffle(h)
    body = pool.text(r.choice([0, 1, 2, nbody, nbody]), nl="\n")
    if r.random() < 0.6:
        body += "\n"
    s = "\n".join(h) + "\n" + r.choice(["\n", "\n", "\n", " \n", "\t \n"] if not crlf else ["\n"]) + body
    if crlf:
        s = s.replace("\n", "\r\n")
    return s


WORD_FIELDS = "tcfsbra"


def word_query(r, pool):
    """One argument asking for one word."""
    k = r.random()
    if k < 0.6:
        w = pool.word()
    elif k < 0.85:
        w = pool.variant(pool.word())
    else:
        a = pool.addr()
        i, j = sorted((r.randrange(len(a) + 1), r.randrange(len(a) + 1)))
        w = "".join(c for c in a[i:j] if c.isalnum() or c in "_+-.@") if r.random() < .4 else "".join(c for c in a if c.isalnum() or c in "_+-.@")
    w = w.lstrip("-") or pool.word()
    k = r.random()
    if k < 0.25:
        return w
    if k < 0.7:
        return r.choice(WORD_FIELDS) + ":" + w
    f = "".join(r.sample(WORD_FIELDS, r.randint(2, 4)))
    return f + ":" + w
