"""Behaviours generated by TLC from the models, turned into scenarios for the real program."""
from . import tlc as _tlc

CONTENT = {1: "Message-ID: <one@x>\nSubject: alpha zz\n\nalpha zz\n",
           2: "Message-ID: <two@x>\nSubject: bravo zz\n\nbravo zz\n",
           3: "Message-ID: <three@x>\nIn-Reply-To: <one@x>\nSubject: charlie zz\n\ncharlie zz zz\n"}
FROM = "From a@b.c Mon Jan  1 12:34:56 2001\n"
QUERIES = ["zz", "b:alpha", "s:bravo", "charlie", "~b:alpha", "m:one@x"]


def simulate(ctx, module, cfg, num, depth):
    code, out, st = _tlc.run(module, cfg, ctx.scratch, args=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(ctx.seed * 7919 + 1)],
                             workers=1)
    if code != 0:
        raise _tlc.TLCError("simulation of %s failed (exit %s):\n%s" % (cfg, code, out[-3000:]))
    ctx.cov["states"] += st["states"]
    ctx.parts.append({"behaviours generated by TLC": cfg, "count": num, "states": st["states"]})
    return _tlc.printed(out, "HIST")


def index_history(h, r):
    """A behaviour of IndexModel: the same changes and runs, with a dump and searches after each run."""
    mh = r.random() < 0.4
    name = {"a": "in/1", "b": "in/2"} if mh else {"a": "in/cur/1:2,S", "b": "in/new/2"}
    box = r.choice(["box", "box", "box.gz", "box.xz"])
    name["m"] = box
    mt = {1: 1000000000, 2: 1000000000 + r.choice([1, -1, 3600, 86400])}
    ops = [["mh" if mh else "maildir", "in"]]
    for a in h:
        if a["op"] == "write":
            ops.append(["put", name[a["id"]], "file", CONTENT[a["v"]], mt[a["mt"]]])
        elif a["op"] == "box":
            ops.append(["put", box, "mbox", "".join(FROM + CONTENT[v] + "\n" for v in a["q"]),
                        # equal time and size mean equal content (see DESIGN, false alarms)
                        mt[a["mt"]] + 10 * sum(4 ** k * v for k, v in enumerate(a["q"]))])
        elif a["op"] == "remove":
            ops.append(["del", name[a["id"]]])
        else:
            purge = a["op"] == "purge"
            ops.append(["index"] + (["-p"] if purge else ["-F"] if a["fast"] else []))
            ops.append(["dump", 1 if purge else 0])
            for q in r.sample(QUERIES, 2):
                ops.append(["search", [q], r.choice([0, 0, 1])])
    return {"rc": {"mh" if mh else "maildir": "in", "mbox": box}, "ops": ops, "hash_key": r.randint(0, 2**31 - 1)}


def query_stores(queries, r, per=60):
    """The store of QueryModel with the expressions TLC enumerated, in random order and spread over stores."""
    W = ["", "aa", "ab", "aa ab"]
    r.shuffle(queries)
    res = []
    for i in range(0, len(queries), per):
        order = list(range(16))
        r.shuffle(order)
        ops = [["maildir", "in"]]
        for k in order:
            ops.append(["put", "in/new/%d" % k, "file", "Subject: %s\n\n%s\n" % (W[k % 4], W[k // 4]), 1000000000])
        ops.append(["index"])
        for q in queries[i:i + per]:
            ops.append(["search", ["".join(map(chr, x)) for x in q], 0])
        res.append({"rc": {"maildir": "in"}, "ops": ops, "hash_key": r.randint(0, 2**31 - 1)})
    return res
