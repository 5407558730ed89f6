"""C15: exactly the folders the configuration selects are indexed."""
from harness import core, foldgen


def body(ctx):
    b = ctx.binary()
    r = ctx.rng("folders")
    scns = [foldgen.scenario(r) for _ in range(ctx.n(1500, 20000))]
    ctx.conform(lambda s, d: foldgen.run(s, d, b), scns, "TFolders", "TFolders.cfg", label="folder trees and settings")


if __name__ == "__main__":
    core.main("C15", body)
