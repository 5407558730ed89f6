"""C01: word searches."""
import re

from harness import core, gen, mimegen
from harness.hist import run_script


def scenario(r):
    pool = gen.Pool(r, n=r.choice([4, 8, 14]), long=r.random() < 0.1)
    mime = r.random() < 0.3
    ops = [["maildir", "a"], ["mh", "b"]]
    n = r.choice([1, 2, 5, 8])
    texts = []
    for i in range(n):
        m = mimegen.Mime(r, pool).message(r.choice([0, 1, 1, 2])) if mime and r.random() < 0.6 else gen.simple_message(r, pool, crlf=r.random() < 0.08)
        texts.append(m)
        rel = r.choice(["a/new/%d.x", "a/cur/%d.x:2,S", "b/%d"]) % (i + 1)
        ops.append(["put", rel, "file", m, 1000000000 + i])
    ops.append(["index"])
    for _ in range(10):
        ops.append(["search", [gen.word_query(r, pool)]])
    # address-like words that really occur, and near misses of them
    for _ in range(8):
        t = r.choice(texts)
        if r.random() < 0.7:        # from an address header
            t = " ".join(re.findall(r"(?im)^(?:to|cc|from):((?:.|\n[ \t])*)", t)) or t
        ws = re.findall(r"[A-Za-z0-9_+.@-]+", t)
        if ws:
            w = r.choice(ws)
            if r.random() < .3:
                w = pool.variant(w)
            w = w.lstrip("-") or "a"
            ops.append(["search", [r.choice(["", "t:", "c:", "f:", "a:", "r:", "s:", "b:", "tcf:", "sb:"]) + w]])
    return {"rc": {"maildir": "a", "mh": "b"}, "ops": ops, "hash_key": r.randint(0, 2**31 - 1)}


def body(ctx):
    b = ctx.binary()
    r = ctx.rng("words")
    scns = [scenario(r) for _ in range(ctx.n(1000, 12000))]
    ctx.conform(lambda s, d: run_script(s, d, b), scns, "TMairix", "TMairix.cfg", label="words")


if __name__ == "__main__":
    core.main("C01", body)
