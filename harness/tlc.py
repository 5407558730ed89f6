"""Running TLC: exhaustive model checking, and validation of batches of recorded traces."""
import json, os, re, shutil, subprocess

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCError(Exception):
    pass


def run(module, cfg, scratch, args=(), env=None, workers=8, heap="6g", timeout=800, name=None):
    """Run TLC on spec/<module>.tla with spec/<cfg>; returns (exit code, output, stats)."""
    d = os.path.join(scratch, "tlc-%s" % (name or cfg.replace(".cfg", "")))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    shutil.copy(os.path.join(SPEC, cfg), os.path.join(d, "run.cfg"))
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + d, "-cp", CP, "tlc2.TLC",
           "-config", "run.cfg", "-workers", str(workers), "-metadir", os.path.join(d, "states"),
           "-noGenerateSpecTE"] + list(args) + [module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=d, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
        out, code = r.stdout.decode("utf-8", "replace"), r.returncode
    except subprocess.TimeoutExpired as ex:
        out, code = (ex.stdout or b"").decode("utf-8", "replace"), -1
    stats = {"states": 0, "transitions": 0}
    m = None
    for m in re.finditer(r"^(\d+) states generated, (\d+) distinct states found", out, re.M):
        pass
    if m:
        stats = {"transitions": int(m.group(1)), "states": int(m.group(2))}
    else:
        m2 = re.search(r"The number of states generated: (\d+)", out)
        if m2:
            stats = {"transitions": int(m2.group(1)), "states": int(m2.group(1))}
    shutil.rmtree(d, ignore_errors=True)
    return code, out, stats


def check_model(module, cfg, scratch, **kw):
    """Exhaustive check of the design.  The model does not depend on /repo, so a failure is an error."""
    code, out, stats = run(module, cfg, scratch, **kw)
    if code != 0:
        code, out, stats = run(module, cfg, scratch, **kw)
    if code != 0:
        raise TLCError("model %s/%s failed (exit %s):\n%s" % (module, cfg, code, out[-4000:]))
    return stats, out


def printed(out, tag):
    """Decode the JSON values printed by PrintT("@@TAG " \\o ToJson(v))."""
    res = []
    pre = '"@@%s ' % tag
    for line in out.splitlines():
        if line.startswith(pre):
            s = json.loads(line)
            res.append(json.loads(s[len(pre) - 1:]))
    return res


def validate(module, cfg, traces, scratch, env=None, workers=8, timeout=800, name=None, chunk_bytes=40_000_000):
    """Validate recorded traces (list of JSON values).  Returns (rejected, stats); rejected is a list of
    (trace index, report).  A trace is accepted when the spec printed END for it."""
    rejected, tot = [], {"states": 0, "transitions": 0}
    lines = [json.dumps(t, separators=(",", ":")) for t in traces]
    start = 0
    while start < len(lines):
        end, size = start, 0
        while end < len(lines) and (end == start or size + len(lines[end]) < chunk_bytes):
            size += len(lines[end])
            end += 1
        fn = os.path.join(scratch, "traces-%s.ndjson" % (name or module))
        with open(fn, "w") as f:
            f.write("\n".join(lines[start:end]) + "\n")
        e = dict(env or {})
        e["TRACES"] = fn
        code, out, st = run(module, cfg, scratch, env=e, workers=workers, timeout=timeout, name=name or module)
        ends = set(printed(out, "END"))
        mism = {}
        for m in printed(out, "MISMATCH"):
            if m["t"] not in mism or m.get("l", 0) > mism[m["t"]].get("l", 0):
                mism[m["t"]] = m
        n = end - start
        ok_run = code == 0
        if not ok_run and not mism and os.environ.get("VERIF_DEBUG"):
            print(out[-6000:])
        if not ok_run and len(ends | set(mism)) < n:
            # TLC itself failed (evaluation error, memory): that is an error of the machinery, not a verdict
            raise TLCError("trace validation %s failed (exit %s):\n%s" % (module, code, out[-4000:]))
        for i in range(1, n + 1):
            if i in ends:      # some behaviour of the specification explains the whole trace
                continue
            if i in mism:
                rejected.append((start + i - 1, mism[i]))
            else:
                rejected.append((start + i - 1, {"t": i, "why": "no specification step explains the next event"}))
        for k in tot:
            tot[k] += st[k]
        if os.environ.get("VERIF_KEEP") and not os.path.exists(os.environ["VERIF_KEEP"]):
            shutil.copy(fn, os.environ["VERIF_KEEP"])
        os.unlink(fn)
        start = end
    return rejected, tot
