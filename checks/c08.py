"""C08: thread searches."""
from harness import core, mixed
from harness.hist import run_script


def body(ctx):
    ctx.model("ThreadModel", "ThreadModel.cfg" if ctx.quick else "ThreadModelBig.cfg")
    b = ctx.binary()
    r = ctx.rng("threads")
    scns = [mixed.thread_history(r, r.choice([1, 3, 6])) for _ in range(ctx.n(150, 1500))]
    scns += [mixed.thread_graph(r) for _ in range(ctx.n(500, 6000))]
    scns += [mixed.thread_forest(r) for _ in range(ctx.n(800, 10000))]
    ctx.conform(lambda s, d: run_script(s, d, b), scns, "TMairix", "TMairix.cfg", label="thread histories")


if __name__ == "__main__":
    core.main("C08", body)
