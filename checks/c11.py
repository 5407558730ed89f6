"""C11: the match folder holds exactly the matches."""
from harness import core, outgen
from harness.hist import run_script


def body(ctx):
    b = ctx.binary()
    r = ctx.rng("out")
    scns = [outgen.out_history(r, r.choice([2, 4, 7])) for _ in range(ctx.n(350, 5000))]
    ctx.conform(lambda s, d: run_script(s, d, b), scns, "TMairix", "TMairix.cfg", label="match folders")


if __name__ == "__main__":
    core.main("C11", body)
