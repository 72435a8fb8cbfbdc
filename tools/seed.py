"""Development tool for seeded/: seed.py verify ID... | check ID... [-- PROP...]   (scratch copies under /tmp, removed afterwards)
verify: the patch applies and builds, the stable tests pass with it, the demo passes without and fails with it.
check: runs the property's check (or the given ones) against a copy with the patch."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def copy(sid, patched=True):
    d = tempfile.mkdtemp(prefix=f"seed-{sid}-", dir="/tmp")
    r = os.path.join(d, "repo")
    sh(f"cp -a /repo {r}")
    if patched:
        p = sh(f"git apply {V}/seeded/{sid}/patch.diff", cwd=r)
        if p.returncode:
            print(sid, "patch does not apply", p.stdout)
            return d, None
    return d, r


def demo(sid, repo):
    d = tempfile.mkdtemp(prefix="demo-", dir="/tmp")
    shutil.copytree(f"{V}/seeded/{sid}", d + "/x", ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    r = sh(f"bash {d}/x/demo.sh", cwd=repo, timeout=300)
    shutil.rmtree(d)
    return r


def verify(sid):
    out = []
    d, r = copy(sid)
    if r is None:
        return False
    ok = True
    try:
        blame_ok(sid, out)
        if "grammar" in open(f"{V}/seeded/{sid}/patch.diff").read():
            env = dict(os.environ)
            b = sh(f"find omegaconf/grammar/gen -type f ! -name __init__.py -delete; {PY} setup.py -q antlr", cwd=r)
            if b.returncode:
                out.append("BUILD FAILED " + b.stdout[-500:]); ok = False
        x = f"{d}/junit.xml"
        t = sh(f"PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH={r} {PY} -m pytest -q -x --maxfail=5 -p no:cacheprovider --deselect 'tests/test_nodes.py::test_eq[node33-hello.txt-False]' -rf 2>&1 | tail -8", cwd=r)
        last = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else "?"
        if "FAILED" in t.stdout or "ERROR" in t.stdout or "passed" not in t.stdout:
            ok = False
        out.append("tests: " + (last if ok else t.stdout[-900:]))
        a, b = demo(sid, "/repo"), demo(sid, r)
        out.append(f"demo: unchanged {a.returncode}, patched {b.returncode}: {b.stdout.strip()[-200:]!r}")
        if a.returncode != 0 or b.returncode == 0:
            ok = False
            out.append("DEMO WRONG " + a.stdout[-500:])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    print(sid, "OK" if ok else "NOT OK", *out, sep="\n   ", flush=True)
    return ok


def blame_ok(sid, out):
    """The removed lines are lines of the original repository."""
    base = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.strip()
    f = None
    orig = {}
    for l in open(f"{V}/seeded/{sid}/patch.diff"):
        if l.startswith("--- a/"):
            f = l[6:].strip()
            orig[f] = set(sh(f"git -C /repo show {ORIG}:{f}").stdout.splitlines())
        elif l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:].rstrip("\n") not in orig[f]:
            out.append(f"NOT ORIGINAL: {l.rstrip()}")


ORIG = sh("git -C /repo log --reverse --format=%h --grep='^fix:' | head -1").stdout.strip() + "^"


def check(sid, props, tier="quick"):
    prop = json.load(open(f"{V}/seeded/{sid}/meta.json"))["property"]
    d, r = copy(sid)
    if r is None:
        return
    try:
        for p in props or [prop]:
            c = sh(f"VERIF_REPO={r} timeout 900 ./check {p} --tier {tier} --scale {os.environ.get('SCALE', '1')}", cwd=V)
            v = f"VIOLATION property={p}" in c.stdout
            print(f"{sid} {p}: exit {c.returncode} {'CAUGHT' if v and c.returncode == 1 else 'missed'}", flush=True)
            if v:
                print("    " + next(l for l in c.stdout.splitlines() if l.startswith("---"))[:400], flush=True)
            elif c.returncode:
                print(c.stdout[-1500:])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def all_ids():
    return sorted(os.listdir(f"{V}/seeded"))


if __name__ == "__main__":
    what, args = sys.argv[1], sys.argv[2:]
    props = []
    if "--" in args:
        i = args.index("--")
        args, props = args[:i], args[i + 1:]
    ids = args or all_ids()
    if what == "verify":
        with ThreadPoolExecutor(6) as ex:
            sys.exit(0 if all(list(ex.map(verify, ids))) else 1)
    for s in ids:
        check(s, props)
