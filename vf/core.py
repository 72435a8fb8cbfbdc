"""Runner: shards Hypothesis over worker processes, collects counts, saves minimal failing cases."""
import hashlib, importlib, json, os, resource, signal, sys, time, traceback, warnings
import multiprocessing as mp

from . import build
from .codec import enc, dec

SHARDS = 8
CASE_CPU_S = 60
SHRINK_S = 40


class Violation(Exception):
    pass


class CaseTimeout(BaseException):
    pass


class Leg:
    """One generated check: a strategy of plain-data cases and an oracle run(case, ctx)."""
    def __init__(self, name, strategy, run, quick, thorough=None, rule="", enumerated=None):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough = quick, thorough if thorough is not None else quick * 12
        self.rule = rule
        self.enumerated = enumerated  # callable(tier) -> list of cases, explored completely


class Ctx:
    __slots__ = ("labels", "nontrivial")

    def __init__(self):
        self.labels = set()
        self.nontrivial = False

    def label(self, s):
        self.labels.add(s)

    def hit(self, s=None):
        self.nontrivial = True
        if s:
            self.labels.add(s)


def fail(msg):
    raise Violation(msg)


_SCRATCH = [None]


def scratch():
    """A directory of this process, removed when the run ends."""
    d = os.path.join(_SCRATCH[0], str(os.getpid()))
    os.makedirs(d, exist_ok=True)
    return d


def with_scratch(f):
    import functools, shutil, tempfile

    @functools.wraps(f)
    def g(*a, **k):
        _SCRATCH[0] = tempfile.mkdtemp(prefix="vf-", dir="/tmp")
        try:
            return f(*a, **k)
        finally:
            shutil.rmtree(_SCRATCH[0], ignore_errors=True)
    return g


def _repo_frames(tb):
    root = os.path.abspath(build.REPO) + os.sep
    return any(f.filename.startswith(root) or "/grammar/gen/" in f.filename for f in traceback.extract_tb(tb))


class Outcome:
    def __init__(self, kind, msg, sig=None):
        self.kind, self.msg = kind, msg  # 'ok' | 'fail' | 'timeout' | 'harness'


_disarmed = [False]


def _on_prof(signum, frame):
    raise CaseTimeout()


def run_case(leg, case, ctx):
    """Runs one case; returns Outcome."""
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
    try:
        leg.run(case, ctx)
        return Outcome("ok", "")
    except Violation as e:
        return Outcome("fail", str(e))
    except CaseTimeout:
        return Outcome("timeout", f"no result after {CASE_CPU_S}s of CPU time (a case takes milliseconds)")
    except Exception as e:
        from hypothesis.errors import HypothesisException, StopTest, UnsatisfiedAssumption
        if isinstance(e, (HypothesisException, StopTest, UnsatisfiedAssumption)):
            raise
        txt = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-6:])
        if _repo_frames(e.__traceback__):
            return Outcome("fail", f"unexpected {type(e).__name__}: {str(e)[:300]}\n{txt}")
        return Outcome("harness", txt)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def case_key(ecase):
    return hashlib.blake2b(json.dumps(ecase, sort_keys=True, ensure_ascii=True).encode(), digest_size=8).digest()


def _worker(prop_mod, leg_name, n, seed, shard, cases, conn):
    try:
        conn.send(_worker_impl(prop_mod, leg_name, n, seed, shard, cases))
    except BaseException as e:
        conn.send({"harness": "".join(traceback.format_exception(type(e), e, e.__traceback__))})
    finally:
        conn.close()


def _worker_impl(mod, leg_name, n, seed, shard, cases):
    soft = 4 << 30
    try:
        resource.setrlimit(resource.RLIMIT_AS, (soft, soft))
    except Exception:
        pass
    signal.signal(signal.SIGPROF, _on_prof)
    sys.unraisablehook = id  # (a builtin: needs no Python frame when the stack is full)
    leg = next(l for l in mod.LEGS if l.name == leg_name)
    st = {"evals": 0, "keys": set(), "labels": {}, "samples": [], "fail": None, "harness": None, "t_fail": None, "size": None}

    def one(case):
        if st["t_fail"] is not None and (time.monotonic() - st["t_fail"] > SHRINK_S or st["fail"][2] == "timeout"):
            return  # stop shrinking
        ctx = Ctx()
        ecase = enc(case)
        out = run_case(leg, case, ctx)
        if st["fail"] is None:
            st["evals"] += 1
            for l in ctx.labels:
                st["labels"][l] = st["labels"].get(l, 0) + 1
            if ctx.nontrivial:
                k = case_key(ecase)
                if k not in st["keys"]:
                    st["keys"].add(k)
                    if len(st["samples"]) < 2:
                        st["samples"].append(ecase)
        if out.kind == "harness":
            st["harness"] = out.msg + "\ncase: " + json.dumps(ecase)[:3000]
            raise RuntimeError("harness")
        if out.kind in ("fail", "timeout"):
            if st["t_fail"] is None:
                st["t_fail"] = time.monotonic()
            size = len(json.dumps(ecase))
            if st["fail"] is None or size <= st["size"]:
                st["fail"], st["size"] = (ecase, out.msg, out.kind), size
            raise Violation("failing case")

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if cases is not None:
            for c in cases:
                try:
                    one(c)
                except Violation:
                    break
                except RuntimeError:
                    break
        else:
            import hypothesis
            from hypothesis import HealthCheck, Phase, given, settings
            hypothesis.settings.register_profile("vf", hypothesis.settings(
                max_examples=n, database=None, deadline=None, print_blob=False, report_multiple_bugs=False,
                phases=[Phase.generate, Phase.shrink], suppress_health_check=list(HealthCheck)))
            hypothesis.settings.load_profile("vf")

            @hypothesis.seed(seed)
            @given(leg.strategy())
            def test(case):
                one(case)
            try:
                test()
            except BaseException as e:
                if st["fail"] is None and st["harness"] is None:
                    st["harness"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))
    st["keys"] = list(st["keys"])
    return st


@with_scratch
def run_property(pid, tier, seed, scale=1.0, only=None):
    t0 = time.monotonic()
    mod_name = "vf.props." + pid.lower()
    known = load_known(pid)
    mod = importlib.import_module(mod_name)
    sys.stdout.flush()
    res, violations, harness = {}, [], []
    signal.signal(signal.SIGPROF, _on_prof)

    # committed regression cases first (they bypass the generators)
    reg_dir = os.path.join(build.VERIF, "regressions", pid)
    nreg = 0
    if os.path.isdir(reg_dir) and not only:
        for fn in sorted(os.listdir(reg_dir)):
            d = json.load(open(os.path.join(reg_dir, fn)))
            leg = next((l for l in mod.LEGS if l.name == d["leg"]), None)
            if leg is None:
                continue
            nreg += 1
            pr, pw = mp.Pipe(False)
            p = mp.get_context("fork").Process(target=_worker, args=(mod, leg.name, 0, 0, 0, [dec(d["case"])], pw))
            p.start(); pw.close()
            r = pr.recv(); p.join()
            if r.get("harness"):
                harness.append(r["harness"])
            elif r["fail"]:
                violations.append((leg.name, r["fail"]))
    for leg in mod.LEGS:
        if only and leg.name not in only:
            continue
        tl = time.monotonic()
        n = int((leg.quick if tier == "quick" else leg.thorough) * scale)
        jobs = []
        enum = leg.enumerated(tier) if leg.enumerated else None
        if enum is not None and known:
            skip = [kf["case"] for kf in known if kf["leg"] == leg.name]  # replayed below
            enum = [c for c in enum if enc(c) not in skip]
        nsh = SHARDS if (enum is None and n >= 64) or (enum is not None and len(enum) >= 64) else 1
        for s in range(nsh):
            cases = enum[s::nsh] if enum is not None else None
            pr, pw = mp.Pipe(False)
            p = mp.get_context("fork").Process(
                target=_worker, args=(mod, leg.name, max(1, n // nsh), seed * 1000 + s, s, cases, pw))
            p.start(); pw.close()
            jobs.append((p, pr))
        agg = {"evals": 0, "keys": set(), "labels": {}, "samples": []}
        fails = []
        for p, pr in jobs:
            try:
                r = pr.recv()
            except EOFError:
                r = {"harness": f"worker of leg {leg.name} died"}
            p.join()
            if "evals" not in r:
                harness.append(r["harness"]); continue
            agg["evals"] += r["evals"]
            agg["keys"].update(r["keys"])
            for k, v in r["labels"].items():
                agg["labels"][k] = agg["labels"].get(k, 0) + v
            agg["samples"] += r["samples"]
            if r["harness"]:
                harness.append(r["harness"])
            if r["fail"]:
                fails.append(r["fail"])
        if fails:
            violations.append((leg.name, min(fails, key=lambda f: (f[2] == "timeout", len(json.dumps(f[0]))))))
        agg["s"] = round(time.monotonic() - tl, 2)
        res[leg.name] = agg

    # known findings: replayed, reported, never suppressing anything else
    for kf in known:
        leg = next(l for l in mod.LEGS if l.name == kf["leg"])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            out = run_case(leg, dec(kf["case"]), Ctx())
        if out.kind in ("fail", "timeout") and kf["signature"] in out.msg:
            print(f"KNOWN-FINDING: property={pid} {kf['what']}")
        elif out.kind in ("fail", "timeout"):
            violations.append((leg.name, (kf["case"], out.msg, out.kind)))

    new = []
    for name, f in violations:
        if any(kf["leg"] == name and kf["case"] == f[0] and kf["signature"] in f[1] for kf in known):
            continue
        new.append((name, f))
    wall = round(time.monotonic() - t0, 2)
    evals = sum(a["evals"] for a in res.values()) + nreg
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": sum(len(a["keys"]) for a in res.values()),
            "rule": " | ".join(f"{l.name}: {l.rule}" for l in mod.LEGS),
            "samples": [{"leg": k, "case": c} for k, a in res.items() for c in _small(a["samples"])],
            "legs": {k: {"evaluations": a["evals"], "distinct_nontrivial": len(a["keys"]),
                         "labels": dict(sorted(a["labels"].items())), "seconds": a["s"]} for k, a in res.items()},
            "regression_cases": nreg,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": wall, "violations": len(new),
    }
    if not only:
        os.makedirs(os.path.join(build.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(build.VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    if new:
        for name, (case, msg, kind) in new:
            path = save_replay(pid, name, case, msg, seed)
            print(f"--- {pid}/{name}: {msg[:1500]}\n    case: {json.dumps(case)[:1500]}")
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    if harness:
        print(f"HARNESS ERROR in {pid}:\n" + harness[0][-4000:])
        return 2
    print(f"OK {pid} tier={tier} seed={seed} evaluations={evals} "
          f"distinct_nontrivial={ev['coverage']['distinct_nontrivial']} wall={wall}s")
    return 0


def _small(samples):
    return sorted(samples, key=lambda c: abs(len(json.dumps(c)) - 250))[:2]


def save_replay(pid, leg, case, msg, seed):
    d = os.path.join(build.VERIF, "replays", pid)
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(json.dumps([leg, case]).encode()).hexdigest()[:12]
    path = os.path.join(d, f"{leg}-{h}.json")
    with open(path, "w") as f:
        json.dump({"property": pid, "leg": leg, "case": case, "message": msg, "seed": seed}, f, indent=1)
    return path


def load_known(pid):
    f = os.path.join(build.VERIF, "known_findings.json")
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f))["findings"] if k["property"] == pid]


@with_scratch
def replay(path):
    d = json.load(open(path))
    mod = importlib.import_module("vf.props." + d["property"].lower())
    leg = next(l for l in mod.LEGS if l.name == d["leg"])
    signal.signal(signal.SIGPROF, _on_prof)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = run_case(leg, dec(d["case"]), Ctx())
    print(out.kind, out.msg)
    if out.kind in ("fail", "timeout"):
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    return 2 if out.kind == "harness" else 0
