"""C16: unusual and damaged mail."""
from harness import core
from harness.damagegen import History
from harness.hist import run_script


def body(ctx):
    b = ctx.binary()
    asan = ctx.binary("asan")
    shim = ctx.shim("fsgate")
    r = ctx.rng("damage")
    scns = [History(r).scenario("", r.choice([1, 2, 4])) for _ in range(ctx.n(800, 12000))]

    def run(s, d):
        if any(o[0] == "vanish" for o in s["ops"]):
            return run_script(dict(s, ops=[["vanish", shim] + o[2:] if o[0] == "vanish" else o for o in s["ops"]]), d, b)
        # the sanitizer makes accesses outside the message that would end the run by chance end it always
        return run_script(dict(s, env={"ASAN_OPTIONS": "detect_leaks=0:exitcode=99"}), d, asan)
    ctx.conform(run, scns, "TMairix", "TMairix.cfg", label="damaged mail")


if __name__ == "__main__":
    core.main("C16", body)
