"""C05: mbox folders through any history of edits."""
from harness import core, histgen
from harness.hist import run_script


def body(ctx):
    b = ctx.binary()
    r = ctx.rng("mbox")
    scns = [histgen.mbox_history(r, rounds=r.choice([1, 3, 7])) for _ in range(ctx.n(300, 4000))]
    ctx.conform(lambda s, d: run_script(s, d, b), scns, "TMairix", "TMairix.cfg", label="mbox histories")


if __name__ == "__main__":
    core.main("C05", body)
