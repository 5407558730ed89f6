"""A scripted IMAP server on stdin and stdout: python3 -S imapd.py STATE.

STATE is a JSON file {"folders": {name: {"uidv", "next", "msgs": [[uid, raw, [flags]]]}}, "opts": {...}}, rewritten
before a command that changed it is answered.  It is strict: what is no well-formed command gets BAD.
opts: preauth, greetcaps, logincaps, user, password, order, noise, chunk, cut (stop at that command), cuthalf,
nofetch (uids not fetched), nolist (folders that cannot be selected), readflags (a fetch marks as read: always, unless PEEK)
"""
import json, os, sys


class Bad(Exception):
    pass


class Server:
    def __init__(self, fn):
        self.fn = fn
        with open(fn, encoding="latin-1") as f:
            self.s = json.load(f)
        self.o = self.s["opts"]
        self.f = self.s["folders"]
        self.sel = None
        self.rw = False
        self.auth = bool(self.o.get("preauth"))
        self.n = 0
        self.log = open(fn + ".log", "a", encoding="latin-1")

    def save(self):
        with open(self.fn + ".tmp", "w", encoding="latin-1") as f:
            json.dump(self.s, f)
        os.rename(self.fn + ".tmp", self.fn)

    def out(self, s, half=False):
        b = s.encode("latin-1")
        if half:
            b = b[:len(b) // 2]
        c = self.o.get("chunk") or len(b) or 1
        for i in range(0, len(b), c):
            os.write(1, b[i:i + c])

    # ---- reading a command ----
    def byte(self):
        b = os.read(0, 1)
        if not b:
            sys.exit(0)
        return b.decode("latin-1")

    def args(self):
        """One command line as a list of ('a', atom) | ('s', string) | list."""
        stack = [[]]
        self.ended = False
        tok, q, esc, lit = "", False, False, ""
        c = self.byte()
        after = False      # something ended: a space or a parenthesis must follow
        while True:
            if q:
                if esc:
                    if c not in '"\\':
                        raise Bad("escape")
                    tok += c
                    esc = False
                elif c == "\\":
                    esc = True
                elif c == '"':
                    stack[-1].append(("s", tok))
                    tok, q, after = "", False, True
                elif c in "\r\n":
                    self.ended = c == "\n"
                    raise Bad("newline in string")
                else:
                    tok += c
            elif c in " \r\n()":
                if tok:
                    stack[-1].append(("a", tok))
                    tok = ""
                after = False
                if c == "(":
                    stack.append([])
                elif c == ")":
                    if len(stack) < 2:
                        raise Bad("parenthesis")
                    x = stack.pop()
                    stack[-1].append(x)
                elif c == "\r":
                    self.ended = True
                    if self.byte() != "\n":
                        raise Bad("cr")
                    if len(stack) != 1:
                        raise Bad("parenthesis")
                    return stack[0]
                elif c == "\n":
                    self.ended = True
                    raise Bad("bare newline")
            elif after:
                raise Bad("after string")
            elif c == '"' and not tok:
                q = True
            elif c == "{" and not tok:
                n = ""
                while True:
                    c = self.byte()
                    if c == "}":
                        break
                    n += c
                if not n.endswith("+") or not n[:-1].isdigit() or self.byte() + self.byte() != "\r\n":
                    raise Bad("literal")
                k = int(n[:-1])
                b = b""
                while len(b) < k:
                    x = os.read(0, k - len(b))
                    if not x:
                        sys.exit(0)
                    b += x
                stack[-1].append(("s", b.decode("latin-1")))
                after = True
            else:
                tok += c
            c = self.byte()

    # ---- answering ----
    def caps(self):
        return "CAPABILITY IMAP4rev1 LITERAL+ AUTH=PLAIN UIDPLUS"

    def noise(self):
        if self.o.get("noise"):
            return ["* OK Still here\r\n", "* %d RECENT\r\n" % 0, "* FLAGS (\\Seen \\Deleted)\r\n", "* LIST (\\Noselect) \"/\" \"odd) ({2}\"\r\n"][self.n % 4]
        return ""

    def serve(self):
        g = "PREAUTH" if self.auth else "OK"
        if self.o.get("cut") == 0:
            self.out("* OK [CAPAB", True)
            return
        self.out("* %s %sready\r\n" % (g, "[" + self.caps() + "] " if self.o.get("greetcaps") else ""))
        while True:
            tag = "t%d" % self.n
            try:
                a = self.args()
                self.n += 1
                self.log.write(json.dumps(a) + "\n")
                self.log.flush()
                if len(a) < 2 or a[0][0] != "a" or a[1][0] != "a":
                    raise Bad("command")
                tag = a[0][1]
                r, st = self.command(a[1][1].upper(), a[2:])
            except Bad as x:
                if not self.ended:
                    while self.byte() != "\n":
                        pass
                self.log.write("BAD %s\n" % x)
                self.log.flush()
                r, st = "", "BAD " + str(x)
            cut = self.o.get("cut") == self.n
            if not cut or self.o.get("cuthalf"):
                self.out(self.noise() + r + "%s %s\r\n" % (tag, st), cut)
            if cut:
                return

    def need(self, ok):
        if not ok:
            raise Bad("arguments")

    def string(self, x):
        self.need(isinstance(x, (tuple, list)) and len(x) == 2 and x[0] in ("a", "s"))
        return x[1]

    def folder(self, x):
        n = self.string(x)
        return "INBOX" if n.upper() == "INBOX" else n

    def uidset(self, s, msgs, uid):
        """1:*, n or n:m."""
        a, _, b = s.partition(":")
        top = max([m[0] for m in msgs], default=0) if uid else len(msgs)
        lo = top if a == "*" else int(a)
        hi = lo if not b else top if b == "*" else int(b)
        lo, hi = min(lo, hi), max(lo, hi)
        return [m for i, m in enumerate(msgs) if lo <= (m[0] if uid else i + 1) <= hi]

    def command(self, c, a):
        if c == "CAPABILITY":
            self.need(not a)
            return "* %s\r\n" % self.caps(), "OK done"
        if c == "NOOP":
            return "", "OK done"
        if c == "LOGOUT":
            return "* BYE bye\r\n", "OK done"
        if c == "LOGIN":
            self.need(len(a) == 2 and not self.auth)
            if (self.string(a[0]), self.string(a[1])) != (self.o.get("user"), self.o.get("password")):
                return "", "NO wrong"
            self.auth = True
            return "", "OK %sin" % ("[" + self.caps() + "] " if self.o.get("logincaps") else "")
        if not self.auth:
            raise Bad("not authenticated")
        if c in ("SELECT", "EXAMINE"):
            self.need(len(a) == 1)
            n = self.folder(a[0])
            self.sel = None
            if n not in self.f or n in self.o.get("nolist", []):
                return "", "NO no such folder"
            self.sel, self.rw = n, c == "SELECT"
            f = self.f[n]
            ls = ["* %d EXISTS\r\n" % len(f["msgs"]), "* 0 RECENT\r\n", "* FLAGS (\\Answered \\Flagged \\Deleted \\Seen \\Draft)\r\n",
                  "* OK [PERMANENTFLAGS ()] No permanent flags permitted\r\n", "* OK [UIDVALIDITY %d] UIDs valid\r\n" % f["uidv"],
                  "* OK [UIDNEXT %d] next\r\n" % f["next"]]
            if self.o.get("order"):
                ls = ls[::-1]
            return "".join(ls), "OK [READ-%s] done" % ("WRITE" if self.rw else "ONLY")
        if c == "CREATE":
            self.need(len(a) == 1)
            n = self.folder(a[0])
            if n in self.f:
                return "", "NO exists"
            self.f[n] = {"uidv": 1000 + len(self.f), "next": 1, "msgs": []}
            self.save()
            return "", "OK done"
        if c == "APPEND":
            self.need(len(a) in (2, 3))
            n = self.folder(a[0])
            fl = []
            if len(a) == 3:
                self.need(isinstance(a[1], list))
                fl = [self.string(x) for x in a[1]]
            raw = self.string(a[-1])
            self.need(a[-1][0] == "s")
            if n not in self.f:
                return "", "NO [TRYCREATE] no such folder"
            f = self.f[n]
            f["msgs"].append([f["next"], raw, sorted(fl)])
            f["next"] += 1
            self.save()
            return "", "OK [APPENDUID %d %d] done" % (f["uidv"], f["next"] - 1)
        if self.sel is None:
            raise Bad("no folder selected")
        f = self.f[self.sel]
        if c == "UID":
            self.need(len(a) >= 2)
            c, a, uid = self.string(a[0]).upper(), a[1:], True
        else:
            uid = False
        if c == "FETCH":
            self.need(len(a) == 2)
            what = a[1][1].upper() if isinstance(a[1], tuple) else ""
            ms = self.uidset(self.string(a[0]), f["msgs"], uid)
            r = ""
            if what == "FLAGS":
                for m in ms:
                    i = f["msgs"].index(m) + 1
                    x = ["FLAGS (%s)" % " ".join(m[2])] + (["UID %d" % m[0]] if uid else [])
                    if self.o.get("order"):
                        x.reverse()
                    r += "* %d FETCH (%s)\r\n" % (i, " ".join(x)) + self.noise()
                return r, "OK done"
            self.need(what in ("BODY.PEEK[]", "BODY[]", "RFC822", "BODY.PEEK[HEADER]"))
            for m in ms:
                if m[0] in self.o.get("nofetch", []):
                    return "", "NO cannot fetch"
                i = f["msgs"].index(m) + 1
                if what in ("BODY[]", "RFC822") and self.rw and "\\Seen" not in m[2]:
                    m[2] = sorted(m[2] + ["\\Seen"])
                    self.save()
                x = ["%s {%d}\r\n%s" % ("RFC822" if what == "RFC822" else "BODY[]", len(m[1]), m[1])] + (["UID %d" % m[0]] if uid else [])
                if self.o.get("order"):
                    x.reverse()
                if self.o.get("noise"):
                    r += "* %d FETCH (FLAGS (%s))\r\n" % (i, " ".join(m[2]))
                r += "* %d FETCH (%s)\r\n" % (i, " ".join(x)) + self.noise()
            return r, "OK done"
        if c == "COPY":
            self.need(len(a) == 2)
            n = self.folder(a[1])
            if n not in self.f:
                return "", "NO [TRYCREATE] no such folder"
            t = self.f[n]
            for m in self.uidset(self.string(a[0]), f["msgs"], uid):
                t["msgs"].append([t["next"], m[1], list(m[2])])
                t["next"] += 1
            self.save()
            return "", "OK done"
        if not self.rw:
            return "", "NO read-only"
        if c == "STORE":
            self.need(len(a) == 3)
            what = self.string(a[1]).upper()
            fl = [self.string(x) for x in a[2]] if isinstance(a[2], list) else [self.string(a[2])]
            ms = self.uidset(self.string(a[0]), f["msgs"], uid)
            if not ms:
                raise Bad("no messages")
            for m in ms:
                if what.startswith("+FLAGS"):
                    m[2] = sorted(set(m[2]) | set(fl))
                elif what.startswith("-FLAGS"):
                    m[2] = sorted(set(m[2]) - set(fl))
                else:
                    m[2] = sorted(set(fl))
            self.save()
            return "", "OK done"
        if c in ("EXPUNGE", "CLOSE"):
            r = ""
            for i in range(len(f["msgs"]), 0, -1):
                if "\\Deleted" in f["msgs"][i - 1][2]:
                    r += "* %d EXPUNGE\r\n" % i
                    del f["msgs"][i - 1]
            self.save()
            return r, "OK done"
        raise Bad("unknown command " + c)


if __name__ == "__main__":
    Server(sys.argv[1]).serve()
