"""Large stores: many messages, many words, many folders, grown and shrunk over several index runs."""
import json, os, random, shutil

from .hist import parse_dump
from .world import World

FIELDS = {"b": None, "s": "Subject", "f": "From", "t": "To", "c": "Cc"}
SEP = "From a@b Mon Jan  3 10:00:00 2005\n"
MODS = [1, 1, 2, 3, 7, 50, 100, 126, 127, 128, 129, 130, 255, 256, 257, 300, 1000, 4095, 4096, 8191, 16382, 16383, 16384, 16385, 16386, 16511, 16512, 16640, 20000, 65535, 65536, 65537, 131071, 131072, 131073, 133000]


def word(r, k):
    a = "abcdefghijklmnopqrstuvwxyz0123456789_"
    n = r.choice([1, 2, 3, 5, 8, 8, 12, 12, 13, 24, 36, 60]) if k else r.choice([100, 200, 255, 256, 400, 1000])
    return "".join(r.choice(a) for _ in range(n))


def prog(r, n):
    """A progression <<m, r, lo, hi>> over messages 1..n"""
    k = r.random()
    if k < 0.35:
        m = r.choice([x for x in MODS if x <= max(2, n)])
        return [m, r.randrange(m), 1, n]
    if k < 0.6:                                   # one message
        i = r.choice([1, 2, n, n - 1, r.randint(1, n), r.choice([128, 129, 127, 16384, 16385, 65535, 65536, 65537, 131072, 131073]) % n + 1])
        return [1, 0, i, i]
    if k < 0.8:                                   # a stretch
        a = r.randint(1, n)
        return [r.choice([1, 1, 2, 5]), 0, a, min(n, a + r.choice([1, 5, 40, 200, n]))]
    m = r.randint(1, max(1, n))
    return [m, r.randrange(m), r.randint(1, n), n]


def words(r, n, w):
    res, seen = [], set()
    while len(res) < w:
        f = r.choice("bbbbbbsftc")
        x = word(r, r.random() < 0.98)
        if r.random() < 0.1 and res:
            x = r.choice(res)["t"]                # the same word in another field
        if (f, x) in seen or x == "x" or len(x) > 200 and f != "b":
            continue
        seen.add((f, x))
        ks = [prog(r, n) for _ in range(r.choice([1, 1, 1, 2, 3]))]
        if w > 500 and r.random() < 0.85:
            ks = [[1, 0, i, i] for i in (r.randint(1, n) for _ in range(r.choice([1, 1, 2])))]
        res.append({"f": f, "t": x, "k": ks})
    return res


def scenario(r, kind):
    n = {"gaps": lambda: r.choice([16500, 17000, 33500]), "vocab": lambda: r.choice([40, 130, 300]), "mid": lambda: r.choice([300, 520, 1000, 1600]),
         "mboxes": lambda: r.choice([200, 400]), "imap": lambda: r.choice([300, 1023, 1024, 1025, 1100, 1600, 2600]), "huge": lambda: r.choice([66000, 70000, 135000, 140000])}[kind]()
    w = {"gaps": lambda: r.randint(10, 25), "vocab": lambda: r.choice([300, 390, 800, 1600, 3200]), "mid": lambda: r.randint(20, 60),
         "mboxes": lambda: r.randint(20, 100), "imap": lambda: r.randint(10, 40), "huge": lambda: 8}[kind]()
    ws = words(r, n, w)
    if kind == "huge":      # two messages far apart
        ws.append({"f": "b", "t": "farapart", "k": [[1, 0, i, i] for i in (r.randint(1, 40), n - r.randint(0, 40))]})
        ws.append({"f": "s", "t": "threeof", "k": [[1, 0, i, i] for i in (r.randint(1, 400), r.randint(500, n // 2), n - r.randint(0, 40))]})
        far = [len(ws) - 1, len(ws) - 2]
    for i in r.sample(range(1, n + 1), min(n, 5)):
        ws.append({"f": "m", "t": "i%d@h" % i, "k": [[1, 0, i, i]]})
    ops, at = [], 1
    batches = {"gaps": [1, 2, 3], "huge": [1, 2], "imap": [1, 2, 3]}.get(kind, [1, 2, 4, 8])
    nb = r.choice(batches)
    cuts = sorted(r.sample(range(1, n), min(nb - 1, n - 1))) + [n]
    if kind in ("gaps",) and r.random() < 0.5:
        cuts = [r.choice([1, 2, 100])] + [c for c in cuts if c > 100]

    def query():
        q = []
        for _ in range(r.choice([1, 1, 1, 2])):
            q.append([dict(i=r.randrange(len(ws)), neg=int(r.random() < 0.25), sub=int(r.random() < 0.15)) for _ in range(r.choice([1, 1, 2]))])
        return q

    def look(k):
        for _ in range(k):
            ops.append(["search", query(), int(r.random() < (0.3 if n < 2000 else 0.05))])
    for c in cuts:
        while at <= c:
            big = kind in ("gaps", "huge") or kind == "imap" and r.random() < 0.8
            to = min(c, at + (r.randint(0, 40) if kind == "mboxes" else r.randint(n // 3, n) if big else r.randint(0, max(1, n // 3))))
            if kind == "huge" and r.random() < 0.1:
                to = min(to, at + 500)
                ops.append(["add", "files", at, to])
                at = to + 1
                continue
            if kind == "imap" and r.random() < 0.9:
                ops.append(["add", "imap", at, to])
                at = to + 1
                continue
            ops.append(["add", "mboxes" if kind == "huge" or big and r.random() < 0.8 or kind == "mboxes" and r.random() < 0.8 or kind in ("vocab", "mid") and r.random() < 0.3 else "files", at, to])
            at = to + 1
        ops.append(["index"] + r.choice([[], [], ["-p"], ["-F"]]))
        if n * len(ws) < 1500000 and r.random() < 0.7:
            ops.append(["dump"])
        look(r.choice([3, 6]))
        if kind == "huge" and at > n:
            for i in far:
                ops.append(["search", [[dict(i=i, neg=0, sub=0)]], 0])
        if r.random() < (0.6 if kind != "huge" else 0.3):
            if r.random() < 0.85:
                ops.append(["del", prog(r, n)])
            else:
                ops.append(["empty"])
            ops.append(["index"] + r.choice([[], ["-p"], ["-p"]]))
            if n * len(ws) < 1500000 and r.random() < 0.7:
                ops.append(["dump"])
            look(r.choice([2, 4]))
    return {"kind": kind, "n": n, "folders": r.choice([1, 1, 2]), "words": ws, "ops": ops, "T": r.choice([2, 5, 100]), "seed": r.randint(0, 1 << 30),
            "hash_key": r.choice([0, 1, 4294967295, r.randint(0, 1 << 32)])}


def occurrences(ws, n):
    per = [[] for _ in range(n + 1)]
    for j, w in enumerate(ws):
        s = set()
        for m, rr, lo, hi in w["k"]:
            a = lo + (rr - lo) % m
            s.update(range(a, hi + 1, m))
        for i in s:
            per[i].append(j)
    return per


def run(scn, d, binary):
    r = random.Random(scn["seed"])
    ws, n = scn["words"], scn["n"]
    per = occurrences(ws, n)

    def text(i):
        h = {k: [] for k in FIELDS}
        for j in per[i]:
            if ws[j]["f"] in h:
                h[ws[j]["f"]].append(ws[j]["t"])
        s = "".join("%s: %s\n" % (FIELDS[k], " ".join(h[k])) for k in "sftc" if h[k] or k == "s")
        return s + "Message-ID: <i%d@h>\nReferences: <t%d@h>\n\n%s\n" % (i, i // scn["T"], "\n".join(h["b"]))
    w = World(d, binary, hash_key=scn["hash_key"], maildir="d0:d1", mh="h0", mbox="b*")
    w.maildir("d0"), w.maildir("d1"), w.mh("h0")
    ident, where, boxes = {}, {}, []
    state = os.path.join(d, "imap.json")
    if scn["kind"] == "imap":
        server = {"folders": {"f%d" % k: {"uidv": 7 + k, "next": 1, "msgs": []} for k in range(scn["folders"])}, "opts": {"preauth": 1}}
        shutil.copy(os.path.join(os.path.dirname(os.path.abspath(__file__)), "imapd.py"), d)
        w.set_rc(maildir="d0:d1", mh="h0", mbox="b*", imap=":".join(server["folders"]), imap_pipe="python3 -S %s/imapd.py %s" % (d, state))

    def serve():
        with open(state, "w", encoding="latin-1") as f:
            json.dump(server, f)
    if scn["kind"] == "imap":
        serve()
    clock = [1000000000]
    ev = []

    def ids(lines):
        return [ident.get(x, -1) for x in lines]
    for o in scn["ops"]:
        if o[0] == "add":
            _, kind, a, b = o
            ev.append({"op": "add", "kind": kind, "a": a, "b": b})
            if kind == "files":
                for i in range(a, b + 1):
                    rel = r.choice(["d0/cur/%d:2,S", "d0/new/%d", "d1/cur/%d", "h0/%d"]) % i
                    with open(w.p(rel), "w") as f:
                        f.write(text(i))
                    ident[rel], where[i] = i, rel
            elif kind == "imap":
                for i in range(a, b + 1):
                    n = r.choice(sorted(server["folders"]))
                    f = server["folders"][n]
                    f["msgs"].append([f["next"], text(i).replace("\n", "\r\n"), []])
                    where[i] = (n, f["next"])
                    ident["%d:%d:%s" % (f["uidv"], f["next"], n)] = i
                    f["next"] += r.choice([1, 1, 1, 2])
                serve()
            else:
                if boxes and r.random() < 0.5:
                    box = r.choice(boxes)
                else:
                    box = "b%d" % len(boxes)
                    boxes.append(box)
                at = os.path.getsize(w.p(box)) if os.path.exists(w.p(box)) else 0
                out = []
                for i in range(a, b + 1):
                    t = text(i) + "\n"
                    s = at + len(SEP)
                    out.append(SEP + t)
                    at = s + len(t)
                    ident[(box, s)] = i
                with open(w.p(box), "a") as f:
                    f.write("".join(out))
                clock[0] += 10
                os.utime(w.p(box), (clock[0], clock[0]))
        elif o[0] == "del":
            m, rr, lo, hi = o[1]
            gone = set()
            for i in [i for i in where if lo <= i <= hi and i % m == rr]:
                x = where.pop(i)
                if isinstance(x, tuple):
                    gone.add(x)
                else:
                    os.unlink(w.p(x))
            if gone:
                for n, f in server["folders"].items():
                    f["msgs"] = [m for m in f["msgs"] if (n, m[0]) not in gone]
                serve()
            ev.append({"op": "del", "k": o[1]})
        elif o[0] == "empty":
            for b in boxes:
                os.unlink(w.p(b))
            boxes = []
            for k in [k for k in ident if isinstance(k, tuple)]:
                del ident[k]
            ev.append({"op": "empty"})
        elif o[0] == "index":
            rc, out, err = w.index(*o[1:], timeout=120)
            ev.append({"op": "index", "rc": rc, "text": " ".join(o) + " " + err.decode("latin-1")[:200]})
        elif o[0] == "search":
            args, q = [], []
            for c in o[1]:
                alts = []
                f = ws[c[0]["i"]]["f"]
                for a in (c[:1] if f == "m" else c):
                    x = ws[a["i"]]
                    if x["f"] != f:
                        continue
                    if f == "m":
                        a = dict(a, neg=0)
                    p = x["t"]
                    sub = int(a["sub"] and f != "m" and len(p) < 30)
                    if sub:
                        p = p[len(p) // 3:2 * len(p) // 3 + 1]
                    alts.append({"f": f, "p": list(p.encode()), "sub": sub, "neg": a["neg"], "s": ("~" if a["neg"] else "") + p + ("=" if sub else "")})
                args.append("%s:%s" % (f, "/".join(x.pop("s") for x in alts)))
                q.append(alts)
            rc, out, err = w.run(["-r"] + (["-t"] if o[2] else []) + args, timeout=120)
            res = []
            for l in out.decode("latin-1").split("\n"):
                if l.startswith("mbox:"):
                    p, _, se = l[5:].rpartition(" [")
                    res.append(ident.get((w.strip(p), int(se.split(",")[0])), -1))
                elif l:
                    res.append(ident.get(w.strip(l), -1))
            ev.append({"op": "search", "q": q, "thr": o[2], "rc": rc, "res": res, "text": " ".join(args)[:200]})
        elif o[0] == "dump":
            rc, out, err = w.run(["-d"], timeout=120)
            dd = parse_dump(rc, out, w.strip)
            e2i = [0] + [0 if not e else ident.get(e[0] if e[1] < 0 else (e[0], e[1]), -1) for e in dd["entries"]]
            tab = {f: {bytes(x[0]): x[1] for x in dd["words"][f]} for f in dd["words"]}
            lists = []
            for x in ws:
                t = tab.get(x["f"], {})
                lists.append([e2i[k] for k in t.get(x["t"].encode(), []) if k < len(e2i) and e2i[k] != 0])
            ev.append({"op": "dump", "rc": rc, "lists": lists})
        if ev[-1].get("rc") == 999:
            break
    return {"ev": ev, "T": scn["T"], "words": [{"f": x["f"], "b": list(x["t"].encode()), "k": x["k"]} for x in ws]}
