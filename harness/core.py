"""The check runner: scratch space, build, scenario execution, evidence, verdicts."""
import atexit, hashlib, json, multiprocessing, os, random, shutil, signal, subprocess, sys, tempfile, time, traceback

from . import build as _build
from . import tlc as _tlc
from . import world

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
UNPRIV = 65534


def _rmtree(d):
    for base, dirs, files in os.walk(d):
        for x in dirs:
            p = os.path.join(base, x)
            if not os.path.islink(p):
                try:
                    os.chmod(p, 0o700)
                except OSError:
                    pass
    shutil.rmtree(d, ignore_errors=True)


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="vp-%s-" % prop, dir="/tmp")
        self._owner = os.getpid()
        atexit.register(self._cleanup)
        os.chmod(self.scratch, 0o711)
        self.work = os.path.join(self.scratch, "work")
        os.mkdir(self.work, 0o711)
        self.can_drop = os.getuid() == 0
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.parts = []
        self.violations = []
        self.known = []
        self._bin = {}
        self.assumptions = []

    def _cleanup(self):
        if os.getpid() == self._owner:
            _rmtree(self.scratch)

    def rng(self, *salt):
        return random.Random("%s/%s/%s" % (self.prop, self.seed, "/".join(map(str, salt))))

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def n(self, quick, thorough):
        v = quick if self.quick else thorough
        f = float(os.environ.get("VERIF_SCALE", "1"))
        return max(1, int(v * f))

    # ---- build -----------------------------------------------------------------------------
    def binary(self, kind="plain"):
        if kind not in self._bin:
            d = os.path.join(self.scratch, "build-" + kind)
            os.makedirs(d)
            os.chmod(d, 0o755)
            if os.environ.get("VERIF_BIN"):
                b = os.environ["VERIF_BIN"]
            elif kind == "plain":
                b = _build.build(d)
            elif kind == "asan":
                b = _build.build(d, cflags="-g -fsanitize=address -fno-omit-frame-pointer")
            dst = os.path.join(self.scratch, "mairix-" + kind)
            shutil.copy(b, dst)
            os.chmod(dst, 0o755)
            self._bin[kind] = dst
            if not os.environ.get("VERIF_BIN"):
                shutil.rmtree(d, ignore_errors=True)
            self.log("built", kind)
        return self._bin[kind]

    def shim(self, name):
        """Build harness/shim/<name>.c as a preloadable library."""
        dst = os.path.join(self.scratch, name + ".so")
        if not os.path.exists(dst):
            r = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", dst, os.path.join(ROOT, "harness", "shim", name + ".c"),
                                "-ldl", "-lpthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                raise RuntimeError("shim %s: %s" % (name, r.stdout.decode()))
            os.chmod(dst, 0o755)
        return dst

    # ---- model checking --------------------------------------------------------------------
    def model(self, module, cfg, **kw):
        t = time.time()
        if os.environ.get("VERIF_SKIP_MODELS") and module != "QueryModel":      # for trials of many changes
            return None, ""
        st, out = _tlc.check_model(module, cfg, self.scratch, **kw)
        self.cov["states"] += st["states"]
        self.cov["transitions"] += st["transitions"]
        self.parts.append({"model": cfg, "states": st["states"], "transitions": st["transitions"],
                           "wall_s": round(time.time() - t, 1)})
        self.log("model", cfg, st)
        return st, out

    # ---- running scenarios on the implementation -------------------------------------------
    def run(self, fn, scenarios, jobs=8):
        """fn(scenario, workdir, binary...) in unprivileged worker processes; returns results in order."""
        items = [(i, s) for i, s in enumerate(scenarios)]
        if not items:
            return []
        base = tempfile.mkdtemp(prefix="run-", dir=self.work)
        if self.can_drop:
            os.chown(base, UNPRIV, UNPRIV)
        res = [None] * len(items)
        q = multiprocessing.get_context("fork")
        with q.Pool(min(jobs, len(items)), initializer=_init_worker,
                    initargs=(fn, base, self.can_drop)) as pool:
            for i, ok, r in pool.imap_unordered(_do, items, chunksize=max(1, min(8, len(items) // (jobs * 4) or 1))):
                if not ok:
                    pool.terminate()
                    raise RuntimeError("scenario driver failed:\n" + r)
                res[i] = r
        _rmtree(base)
        return res

    def validate(self, module, cfg, traces, label=None, **kw):
        t = time.time()
        rej, st = _tlc.validate(module, cfg, traces, self.scratch, **kw)
        self.cov["states"] += st["states"]
        self.cov["transitions"] += st["transitions"]
        self.cov["traces_validated_against_impl"] += len(traces) - len(rej)
        self.parts.append({"traces": label or module, "count": len(traces), "rejected": len(rej),
                           "states": st["states"], "wall_s": round(time.time() - t, 1)})
        self.log("validated", label or module, len(traces), "traces,", len(rej), "rejected", st)
        return rej

    def conform(self, fn, scenarios, module, cfg, label=None, known=None, **kw):
        """Run scenarios on the code, validate the recorded traces, re-run rejected ones to confirm."""
        traces = self.run(fn, scenarios)
        if any(x is None for x in traces):
            scenarios = [s for s, x in zip(scenarios, traces) if x is not None]
            traces = [x for x in traces if x is not None]
        if traces and len(self.cov["samples"]) < 4:
            self.cov["samples"].append(_clip({"kind": label or module, "trace": traces[len(traces) // 2]}))
        rej = self.validate(module, cfg, traces, label=label, **kw)
        if not rej:
            return
        rej = rej[:24]
        idx = [i for i, _ in rej]
        if world.HANGS.value > 4:
            rej, idx = rej[:4], idx[:4]
        world.HANGS.value = 0
        again = self.run(fn, [scenarios[i] for i in idx], jobs=4)
        rej2, _ = _tlc.validate(module, cfg, again, self.scratch, **kw)
        confirmed = {idx[j]: r for j, r in rej2}
        for i, _ in rej:
            if i not in confirmed:
                self.log("rejection of scenario %d not repeated by a re-run; not reported" % i)
                continue
            tr = again[idx.index(i)]
            k = known(scenarios[i], tr, confirmed[i]) if known else None
            if k:
                if k not in self.known:
                    self.known.append(k)
                continue
            self.violation(label or module, scenarios[i], tr, confirmed[i])

    def violation(self, label, scenario, trace, report):
        self.violations.append({"part": label, "scenario": scenario, "trace": trace, "report": report})
        if len(self.violations) <= 3:
            self.log("REJECTED", label, json.dumps(_clip(report))[:1500])

    # ---- verdict ---------------------------------------------------------------------------
    def finish(self):
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": dict(self.cov, parts=self.parts), "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations), "assumptions": self.assumptions}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k), flush=True)
        if self.violations:
            os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
            blob = json.dumps(self.violations[:5], indent=1, default=str)
            rp = os.path.join(ROOT, "replays", "%s-%s.json" % (self.prop, hashlib.sha1(blob.encode()).hexdigest()[:10]))
            with open(rp, "w") as f:
                f.write(blob)
            print("VIOLATION property=%s replay=%s" % (self.prop, rp), flush=True)
            return 1
        self.log("OK")
        return 0


_W = {}


def _init_worker(fn, base, drop):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    if drop:
        os.setgroups([])
        os.setgid(UNPRIV)
        os.setuid(UNPRIV)
    os.umask(0o022)
    _W["fn"], _W["base"] = fn, base


def _do(item):
    i, s = item
    if world.HANGS.value > 24:      # the code under test hangs again and again: enough is known
        return i, True, None
    d = os.path.join(_W["base"], "w%d-%d" % (os.getpid(), i))
    try:
        os.mkdir(d)
        return i, True, _W["fn"](s, d)
    except Exception:
        return i, False, traceback.format_exc()
    finally:
        _rmtree(d)


def _clip(v, depth=0):
    if isinstance(v, list) and len(v) > 1 and all(isinstance(x, int) and 9 <= x <= 255 for x in v):
        return _clip("".join(map(chr, v)))
    if isinstance(v, list):
        return [_clip(x, depth + 1) for x in v[:12]] + (["... %d more" % (len(v) - 12)] if len(v) > 12 else [])
    if isinstance(v, dict):
        return {k: _clip(x, depth + 1) for k, x in list(v.items())[:30]}
    if isinstance(v, str) and len(v) > 300:
        return v[:300] + "..."
    return v


def main(prop, body):
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in sys.argv[1:]:
        if a in ("quick", "thorough"):
            tier = a
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = Ctx(prop, tier, seed)
    try:
        body(ctx)
        rc = ctx.finish()
    except Exception:
        traceback.print_exc()
        print("ERROR in check %s (no verdict)" % prop, flush=True)
        rc = 2
        if ctx.violations:
            rc = ctx.finish()
    sys.stdout.flush()
    sys.exit(rc)
