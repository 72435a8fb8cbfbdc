"""Development tool: creates seeded/<id>/ from (id, property, file, [(old, new)...], demo source, needs, breaks)."""
import json, os, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def plant(sid, prop, edits, demo, needs, breaks):
    """edits: [(file, old, new)]"""
    d = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", d + "/r"], check=True)
        for f, old, new in edits:
            p = f"{d}/r/{f}"
            s = open(p).read()
            assert s.count(old) == 1, (sid, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=d + "/r", stdout=subprocess.PIPE, text=True, check=True).stdout
    finally:
        shutil.rmtree(d)
    o = f"{V}/seeded/{sid}"
    os.makedirs(o, exist_ok=True)
    open(o + "/patch.diff", "w").write(diff)
    open(o + "/demo.py", "w").write(demo.lstrip("\n"))
    open(o + "/demo.sh", "w").write('#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$here/demo.py"\n')
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(o + "/meta.json", "w"), indent=1)
