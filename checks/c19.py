"""C19: the stored index at any size."""
from harness import core, scalegen


def body(ctx):
    ctx.model("DeltaModel", "DeltaModel.cfg" if ctx.quick else "DeltaModelBig.cfg")
    b = ctx.binary()
    for kind, q, t in (("gaps", 4, 30), ("vocab", 16, 160), ("mid", 30, 300), ("mboxes", 6, 40), ("imap", 6, 40), ("huge", 3, 16)):
        r = ctx.rng(kind)
        scns = [scalegen.scenario(r, kind) for _ in range(ctx.n(q, t))]
        ctx.conform(lambda s, d: scalegen.run(s, d, b), scns, "TScale", "TScale.cfg", label=kind)


if __name__ == "__main__":
    core.main("C19", body)
