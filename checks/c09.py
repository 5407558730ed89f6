"""C09: flag, size, path, message-id and attachment-name conditions."""
import re

from harness import core, gen, querygen
from harness.hist import run_script
from harness.mixed import mixed_store, finish


def scenario(r):
    s = mixed_store(r, r.choice([2, 5, 8]), mime=r.choice([0, 0.1, 0.5]))
    bounds = [0, 1, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 10240]
    if r.random() < 0.25:
        bounds += [1048575, 1048576, 1048577, 2097152]
    for b in r.sample(bounds, r.randint(1, 5)):
        rel = s.newname() if s.maildirs or s.mhs else None
        if not rel or rel in s.files:
            continue
        m = "Subject: %s\nMessage-ID: <size%d.%d@x>\n\n" % (s.pool.word(), b, s.n)
        if b < len(m):
            s.put(rel, m + "x\n")
        elif b < 5000:
            s.put(rel, m + ("." * (b - len(m) - 1) + "\n" if b > len(m) else ""))
        else:
            w = s.pool.word()
            m = "Subject: %s\n\n" % w
            s.files[rel], s.mtime[rel] = m, s.tick()
            s.ops.append(["putt", rel, "file", m + "." * (b - len(m) - 1) + "\n", s.mtime[rel], {"subj": [w]}])
    s.index([])
    sizes = bounds + [len(v) for k, v in s.files.items()]
    for rnd in range(r.choice([1, 1, 2])):
        if rnd:
            for _ in range(3):
                s.rename()
                s.step()
            s.index([])
        paths = sorted(s.files) or ["a"]
        allt = "".join(s.files.values())
        mids = sorted(set(re.findall(r"Message-ID: <([^>]*)>", allt, re.I))) or ["x"]
        atts = sorted(set(re.findall(r"name=\"?([^\"\n;/,=~^]+)\"?", allt, re.I))) or ["x.txt"]
        for _ in range(16):
            k = r.random()
            if k < 0.3:
                q = [querygen.flags_arg(r)]
            elif k < 0.6:
                q = [querygen.size_arg(r, sizes)]
            elif k < 0.75:
                q = [querygen.path_arg(r, paths)]
            elif k < 0.87:
                m = r.choice(mids)
                q = ["m:" + r.choice([m, m, m.upper(), m[:-1], m[1:], m + "x", "<%s>" % m])]
            else:
                a = r.choice(atts)
                q = ["n:" + r.choice([a, a.upper(), a[:-1], a[:-4], a[:3] + "=", "^" + a[:2] + "=", "~" + a])]
            if r.random() < 0.35:
                q.append(r.choice([querygen.flags_arg(r), querygen.size_arg(r, sizes), querygen.words_arg(r, s.pool), querygen.path_arg(r, paths)]))
            s.ops.append(["search", q, 0])
    return finish(s)


def body(ctx):
    b = ctx.binary()
    r = ctx.rng("conditions")
    scns = [scenario(r) for _ in range(ctx.n(400, 5000))]
    ctx.conform(lambda s, d: run_script(s, d, b), scns, "TMairix", "TMairix.cfg", label="conditions")


if __name__ == "__main__":
    core.main("C09", body)
