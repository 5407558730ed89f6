"""C02: MIME structure, transfer encodings, encoded headers, attachment names."""
import re

from harness import core, gen, mimegen
from harness.hist import run_script


def scenario(r):
    pool = gen.Pool(r, n=r.choice([6, 14]))
    g = mimegen.Mime(r, pool)
    g.cut_off = True
    ops = [["maildir", "a"]]
    names = []
    for i in range(r.choice([1, 3, 5])):
        m = g.message(r.choice([0, 1, 2, 3]))
        names += re.findall(r"name[*0-9]*=\"?([^\";\n]+)", m, re.I)
        ops.append(["put", "a/cur/%d.x:2,S" % i, "file", m, 1000000000 + i])
    ops.append(["index"])
    for _ in range(12):
        ops.append(["search", [gen.word_query(r, pool)]])
    for w in r.sample(pool.words, min(6, len(pool.words))):
        ops.append(["search", [r.choice(["b:", "b:", "s:", "a:"]) + w]])
    for _ in range(3):
        q = r.choice(names) if names and r.random() < 0.8 else g.filename()
        q = re.sub(r"[/,]", "", re.sub(r"^[^']*''", "", q)).lstrip("~^")
        if q and "=" not in q:
            ops.append(["search", ["n:" + q]])
            if r.random() < 0.5 and len(q) < 31:
                ops.append(["search", ["n:" + (q[:r.randint(1, len(q))]) + "="]])
    ops.append(["search", ["m:%s.%s@x" % (pool.word(), pool.word())]])
    ops.append(["dump", 0])
    return {"rc": {"maildir": "a"}, "ops": ops, "hash_key": r.randint(0, 2**31 - 1)}


def body(ctx):
    b = ctx.binary()
    r = ctx.rng("mime")
    scns = [scenario(r) for _ in range(ctx.n(900, 12000))]
    ctx.conform(lambda s, d: run_script(s, d, b), scns, "TMairix", "TMairix.cfg", label="mime")


if __name__ == "__main__":
    core.main("C02", body)
