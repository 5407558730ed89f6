"""C07: substring and approximate matches."""
from harness import core, gen
from harness.hist import run_script


def word(r, alpha, n):
    return "".join(r.choice(alpha) for _ in range(n))


def mutate(r, w, alpha, k):
    w = list(w)
    for _ in range(k):
        o = r.randint(0, 2)
        if o == 0 and w:
            del w[r.randrange(len(w))]
        elif o == 1:
            w.insert(r.randint(0, len(w)), r.choice(alpha))
        elif w:
            w[r.randrange(len(w))] = r.choice(alpha)
    return "".join(w)


def scenario(r):
    alpha = r.choice(["ab", "abc", "abcdefghijklmnopqrstuvwxyz0123456789_", "aA_0"])
    words = []
    for _ in range(r.choice([3, 8])):
        words.append(word(r, alpha, r.choice([1, 2, 3, 5, 8, 13, 31, 32, 40])))
    ops = [["maildir", "a"]]
    for i in range(r.choice([3, 6])):
        def some(n):
            out = []
            for _ in range(n):
                w = r.choice(words)
                if r.random() < 0.5:
                    w = mutate(r, w, alpha, r.choice([1, 1, 2, 3]))
                if r.random() < 0.3:
                    w = w.upper()
                out.append(w or "q")
            return " ".join(out)
        m = "To: %s@%s\nCc: %s\nFrom: %s\nSubject: %s\nMessage-ID: <%s@x>\nContent-Type: text/plain\nContent-Disposition: attachment; filename=\"%s.txt\"\n\n%s\n" % (
            some(1), some(1), some(1), some(1), some(r.randint(0, 2)), some(1), some(1), some(r.randint(0, 3)))
        ops.append(["put", "a/cur/%s%d.x:2,S" % (r.choice(words)[:20], i), "file", m, 1000000000 + i])
    ops.append(["index"])
    for _ in range(18):
        w = r.choice(words)
        k = r.random()
        if k < 0.4:
            i = r.randrange(len(w))
            p = w[i:r.randint(i + 1, len(w))]
        elif k < 0.8:
            p = mutate(r, w, alpha, r.choice([1, 2]))
        else:
            p = word(r, alpha, r.choice([1, 2, 30, 31, 32, 33, 40]))
        p = p or "a"
        if r.random() < 0.95 and len(p) > 31:
            p = p[:31]
        if r.random() < 0.3:
            p = p.upper()
        n = r.choice(["", "", "0", "1", "1", "2", "3", "4", "7", "31", "99"]) if len(p) > 2 else r.choice(["", "", "0", "1"])
        anc = "^" if r.random() < 0.25 else ""
        neg = "~" if r.random() < 0.1 else ""
        f = r.choice(["", "b:", "s:", "f:", "t:", "c:", "n:", "p:", "bs:", "a:"])
        ops.append(["search", [f + neg + anc + p + "=" + n]])
    return {"rc": {"maildir": "a"}, "ops": ops, "hash_key": r.randint(0, 2**31 - 1)}


def body(ctx):
    ctx.model("ApproxModel", "ApproxModel.cfg" if ctx.quick else "ApproxModelBig.cfg")
    b = ctx.binary()
    r = ctx.rng("substring")
    scns = [scenario(r) for _ in range(ctx.n(500, 6000))]
    ctx.conform(lambda s, d: run_script(s, d, b), scns, "TMairix", "TMairix.cfg", label="substring and approximate")


if __name__ == "__main__":
    core.main("C07", body)
