"""C03: searches after any history of a file-per-message store."""
from harness import core, histgen, modelgen
from harness.hist import run_script


def body(ctx):
    ctx.model("IndexModel", "IndexModelFiles.cfg" if ctx.quick else "IndexModelFiles3.cfg")
    b = ctx.binary()
    r = ctx.rng("model")
    hs = modelgen.simulate(ctx, "IndexModel", "IndexSimFiles.cfg", ctx.n(120, 2000), 25)
    ctx.conform(lambda s, d: run_script(s, d, b), [modelgen.index_history(h, r) for h in hs], "TMairix", "TMairix.cfg",
                label="behaviours of IndexModel")
    r = ctx.rng("hist")
    scns = [histgen.file_history(r, rounds=r.choice([2, 4, 8])) for _ in range(ctx.n(500, 6000))]
    ctx.conform(lambda s, d: run_script(s, d, b), scns, "TMairix", "TMairix.cfg", label="histories")


if __name__ == "__main__":
    core.main("C03", body)
