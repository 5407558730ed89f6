"""Random query expressions."""
from . import gen

LETTERS = ["b", "s", "t", "c", "f", "r", "a", "n"]


def cond(r, pool, subs=True, neg=True, path=False):
    """One condition of an alternative."""
    w = pool.word()
    k = r.random()
    if k < 0.2:
        w = pool.variant(w)
    w = "".join(c for c in w if c.isalnum() or c == "_") or "x"
    if path:        # among the fields
        w = r.choice([w, w, w.lower(), "cur", "new", "1", "2", "11.", "xyz", "m"])[:31]
    out = "~" if neg and r.random() < 0.3 else ""
    if subs and r.random() < 0.3:
        if r.random() < 0.5 and len(w) > 1:
            i = r.randrange(len(w))
            w = w[i:r.randint(i + 1, len(w))]
        w = w[:31]
        if r.random() < 0.3:
            out += "^"
        out += w + "="
        if r.random() < 0.25 and not out.lstrip("~").startswith("^"):
            out += str(r.choice([0, 1, 1, 2]))
        return out
    return out + w


def words_arg(r, pool, **kw):
    f = r.random()
    if f < 0.35:
        pre = ""
    else:
        ls = r.sample(LETTERS, r.choice([1, 1, 1, 2, 3]))
        if r.random() < 0.1:
            ls.insert(r.randint(0, len(ls)), "p")
            kw = dict(kw, path=True)
        pre = "".join(ls) + ":"
    alts = []
    for _ in range(r.choice([1, 1, 2, 2, 3, 5])):
        alts.append(",".join(cond(r, pool, **kw) for _ in range(r.choice([1, 1, 1, 2, 2, 3, 4]))))
    return pre + "/".join(alts)


def flags_arg(r):
    ls = r.sample("srf", r.choice([1, 1, 2, 3]))
    return "F:" + "".join(r.choice(["", "-"]) + (x if r.random() < 0.8 else x.upper()) for x in ls)


def size_arg(r, sizes):
    def num():
        n = max(0, r.choice(sizes) + r.choice([-1, 0, 0, 1, 2, 100, -100]))
        if n >= 1024 and r.random() < 0.4:
            return "%d%s" % (max(1, n // 1024 + r.choice([0, 0, 1])), r.choice("kK"))
        if r.random() < 0.08:
            return r.choice(["1M", "1m", "2M", "2047M", "2048M", "4096M", "4096m", "100000M", "2097152k", "4194304K", "2147483647", "2147483648", "4294967296", "4294967400", "99999999999",
                             "18446744073709551616", "9223372036854775808"])
        return str(n)
    k = r.random()
    if k < 0.2:
        return "z:" + num()
    if k < 0.4:
        return "z:%s-" % num()
    if k < 0.6:
        return "z:-" + num()
    return "z:%s-%s" % (num(), num())


def path_arg(r, paths):
    if r.random() < 0.05:
        return r.choice(["p:^tmp=", "p:^tm=", "p:~^tmp", "p:^tmp"])
    p = r.choice(paths)
    i = r.randrange(len(p))
    s = p[i:r.randint(i + 1, min(len(p), i + 20))].replace("/", "").replace(",", "").replace("=", "").replace("~", "").replace("^", "") or "c"
    if r.random() < 0.2:
        s = s.swapcase()
    if r.random() < 0.15:
        s = s[:-1] + r.choice("xyz0") or "x"
    pre = r.choice(["", "", "", "~"])
    suf = r.choice(["", "", "=", "=1"])
    if suf == "=1" and len(s) < 3:
        suf = ""
    if suf == "" and s[-1:] == "=":
        s = s[:-1] or "q"
    return "p:" + pre + s + suf


def query(r, pool, sizes=None, paths=None, mids=None, atts=None, dates=False, **kw):
    args = []
    for _ in range(r.choice([1, 1, 1, 2, 2, 3])):
        k = r.random()
        if k < 0.7:
            args.append(words_arg(r, pool, **kw))
        elif k < 0.78:
            args.append(flags_arg(r))
        elif k < 0.85 and sizes:
            args.append(size_arg(r, sizes))
        elif k < 0.91 and paths:
            args.append(path_arg(r, paths))
        elif k < 0.95 and mids:
            args.append("m:" + r.choice(mids))
        elif atts:
            args.append("n:" + r.choice(["", "~"]) + r.choice(atts))
        else:
            args.append(words_arg(r, pool, **kw))
    return args
