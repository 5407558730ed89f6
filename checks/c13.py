"""C13: at most one process uses a database at a time."""
from harness import core, lockstep

KINDS = ["index", "purge", "search", "none", "fsearch", "dump", "refuse", "nofolder"]


def preemptions(r, n):
    """Two processes, with up to three switches at every possible place."""
    allp = [(a, b, c, k1, k2) for a in range(0, 18) for b in range(0, 10) for c in range(0, 16) for k1 in ("index", "search") for k2 in ("index", "dump")]
    r.shuffle(allp)
    for a, b, c, k1, k2 in allp[:n]:
        yield {"plan": [["start", 0, k1], ["go", 0, a], ["start", 1, k2], ["go", 1, b], ["go", 0, c]]}


def interrupts(r, n):
    """One process signalled or killed at every place, while another one tries."""
    allp = [(a, s, k, b) for a in range(0, 20) for s in (1, 2, 3, "kill", "term", 2) for k in KINDS for b in (0, 1, 2, 3, 4, 6, 9)]
    r.shuffle(allp)
    for a, s, k, b in allp[:n]:
        st = ["kill", 0, 9] if s == "kill" else ["kill", 0, 15] if s == "term" else ["sig", 0, s]
        plan = [["start", 0, k], ["go", 0, a]]
        if b < 9:
            plan += [["start", 1, "index"], ["go", 1, b]]
        if b < 9 and r.random() < 0.3:
            st[1] = 1       # the other one
        plan += [st, ["go", 0, r.choice([0, 1, 9])]]
        if b == 3:
            plan += [["go", 1, 9]]
        yield {"plan": plan}


def chaos(r):
    n = r.choice([2, 3, 4, 5])
    plan = []
    started = []
    for _ in range(r.choice([10, 30, 60])):
        k = r.random()
        if len(started) < n and (k < 0.15 or not started):
            plan.append(["start", len(started), r.choice(KINDS)])
            started.append(len(started))
        elif k < 0.9:
            plan.append(["go", r.choice(started), r.choice([1, 1, 1, 2, 5])])
        elif k < 0.97:
            plan.append(["sig", r.choice(started), r.choice([1, 2, 3])])
        else:
            plan.append(["kill", r.choice(started), r.choice([9, 15])])
    return {"plan": plan}


def body(ctx):
    ctx.model("LockModel", "LockModel.cfg")
    b = ctx.binary()
    shim = ctx.shim("fsgate")
    f = lambda s, d: lockstep.run(s, d, b, shim)
    r = ctx.rng("lock")
    ctx.conform(f, list(preemptions(r, ctx.n(500, 10000))), "TLock", "TLock.cfg", label="two processes, all switches")
    ctx.conform(f, list(interrupts(r, ctx.n(500, 4000))), "TLock", "TLock.cfg", label="interrupts and kills")
    ctx.conform(f, [chaos(r) for _ in range(ctx.n(400, 6000))], "TLock", "TLock.cfg", label="several processes")


if __name__ == "__main__":
    core.main("C13", body)
