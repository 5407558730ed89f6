"""C18: IMAP folders."""
from harness import core, imapgen
from harness.hist import run_script


def body(ctx):
    b = ctx.binary()
    r = ctx.rng("imap")
    scns = [imapgen.history(r, r.choice([1, 2, 4])) for _ in range(ctx.n(300, 4000))]
    ctx.conform(lambda s, d: run_script(s, d, b), scns, "TMairix", "TMairix.cfg", label="IMAP histories")


if __name__ == "__main__":
    core.main("C18", body)
