"""C04: purging."""
from harness import core, mixed, modelgen
from harness.hist import run_script


def body(ctx):
    ctx.model("IndexModel", "IndexModelBox.cfg" if ctx.quick else "IndexModelBoth.cfg")
    b = ctx.binary()
    r = ctx.rng("model")
    hs = modelgen.simulate(ctx, "IndexModel", "IndexSimBox.cfg", ctx.n(100, 2000), 25)
    ctx.conform(lambda s, d: run_script(s, d, b), [modelgen.index_history(h, r) for h in hs], "TMairix", "TMairix.cfg",
                label="behaviours of IndexModel")
    r = ctx.rng("purge")
    scns = [mixed.purge_history(r, r.choice([2, 4, 7])) for _ in range(ctx.n(350, 4000))]
    ctx.conform(lambda s, d: run_script(s, d, b), scns, "TMairix", "TMairix.cfg", label="purge histories")


if __name__ == "__main__":
    core.main("C04", body)
