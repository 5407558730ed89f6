"""C06: the meaning of query expressions."""
import re

from harness import core, gen, modelgen, querygen, tlc
from harness.hist import run_script
from harness.mixed import mixed_store, finish


def scenario(r):
    s = mixed_store(r, r.choice([1, 4, 8]))
    s.index([])
    for _ in range(r.choice([0, 0, 1, 3])):      # dead entries
        s.delete()
    s.index(["-F"])
    files = {k: v for k, v in s.files.items()}
    sizes = [len(v) for k, v in files.items() if "/" in k] or [100]
    paths = sorted(files) or ["a"]
    mids = sorted(set(re.findall(r"Message-ID: <([^>]*)>", "".join(files.values())))) or ["x"]
    atts = sorted(set(re.findall(r"name=\"([^\"]*)\"", "".join(files.values())))) or ["x.txt"]
    if r.random() < 0.3:
        s.ops.append(["rc", {"sort": "date+"}])
    for _ in range(25):
        s.ops.append([r.choice(["search"] * 7 + ["excerpt"]), querygen.query(r, s.pool, sizes=sizes, paths=paths, mids=mids, atts=atts), 1 if r.random() < 0.1 else 0])
    return finish(s)


def body(ctx):
    st, out = ctx.model("QueryModel", "QueryModel.cfg" if ctx.quick else "QueryModelBig.cfg")
    b = ctx.binary()
    r = ctx.rng("model")
    scns = modelgen.query_stores(sorted(tlc.printed(out, "HIST")), r)
    ctx.conform(lambda s, d: run_script(s, d, b), scns, "TMairix", "TMairix.cfg", label="all small expressions")
    r = ctx.rng("query")
    scns = [scenario(r) for _ in range(ctx.n(400, 5000))]
    ctx.conform(lambda s, d: run_script(s, d, b), scns, "TMairix", "TMairix.cfg", label="queries")


if __name__ == "__main__":
    core.main("C06", body)
