"""C14: interrupted and failed index runs."""
from harness import core, gen
from harness.hist import run_script
from harness.mixed import mixed_store, finish


def scenario(r, shim):
    s = mixed_store(r, r.choice([0, 2, 5]), npool=6)
    big = r.random() < 0.7

    def add_big():
        for _ in range(r.randint(1, 3)):
            rel = s.newname() if s.maildirs or s.mhs else None
            if rel and rel not in s.files:
                ws = ["".join(r.choice("abcdefgh") for _ in range(r.randint(5, 12))) for _ in range(r.choice([100, 300]))]
                m = "Subject: %s\n\n%s\n" % (s.pool.words[0], " ".join(ws))
                s.files[rel], s.mtime[rel] = m, s.tick()
                s.ops.append(["putt", rel, "file", m, s.mtime[rel], {"subj": [s.pool.words[0]], "body": [" ".join(ws)]}])
    first = r.random() < 0.15
    if not first:
        if big and r.random() < 0.6:
            add_big()
        s.index([])
        for _ in range(r.choice([1, 2, 4, 8])):
            s.step()
    if big:
        add_big()
    then = [["search", ["~zzzqqqzzz"], 0], ["search", [gen.word_query(r, s.pool)], r.randint(0, 1)], ["search", ["s:" + s.pool.words[0]], 1]]
    s.ops.append(["faults", shim, r.choice([[], ["-p"], ["-p"], ["-F"]]) if False else r.choice([[], ["-p"]]), r.randint(0, 1 << 30), 4, then])
    return finish(s)


def body(ctx):
    ctx.model("StoreModel", "StoreModel.cfg")
    b = ctx.binary()
    shim = ctx.shim("fsgate")
    r = ctx.rng("faults")
    scns = [scenario(r, "") for _ in range(ctx.n(80, 1200))]

    def run(s, d):
        s = dict(s, ops=[["faults", shim] + o[2:] if o[0] == "faults" else o for o in s["ops"]])
        return run_script(s, d, b)
    ctx.conform(run, scns, "TMairix", "TMairix.cfg", label="interrupted index runs")


if __name__ == "__main__":
    core.main("C14", body)
