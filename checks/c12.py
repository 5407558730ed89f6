"""C12: nothing of the user's is altered."""
from harness import core, outgen
from harness.hist import run_script


def body(ctx):
    b = ctx.binary()
    r = ctx.rng("guard")
    f = lambda s, d: run_script(s, d, b)
    scns = [outgen.refuse_history(r) for _ in range(ctx.n(150, 2000))]
    ctx.conform(f, scns, "TMairix", "TMairix.cfg", label="searches into indexed folders")
    scns = [outgen.guard_history(r, r.choice([3, 6])) for _ in range(ctx.n(250, 3000))]
    ctx.conform(f, scns, "TMairix", "TMairix.cfg", label="changes made by runs")


if __name__ == "__main__":
    core.main("C12", body)
