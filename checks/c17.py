"""C17: settings from the rc file, the environment and the command line."""
from harness import core, setgen


def body(ctx):
    b = ctx.binary()
    r = ctx.rng("settings")
    scns = [setgen.scenario(r) for _ in range(ctx.n(400, 6000))]
    ctx.conform(lambda s, d: setgen.run(s, d, b), scns, "TSettings", "TSettings.cfg", label="settings")


if __name__ == "__main__":
    core.main("C17", body)
