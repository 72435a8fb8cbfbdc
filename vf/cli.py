import argparse, os, sys


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--leg", action="append")
    ap.add_argument("--replay")
    a = ap.parse_args()
    import json
    pid = a.property or json.load(open(a.replay))["property"]
    from . import build
    import traceback
    try:
        build.activate(extra_venv=pid == "C29")
    except Exception:
        traceback.print_exc()
        print("HARNESS ERROR: omegaconf cannot be built or imported")
        return 2
    from . import core
    if a.replay:
        return core.replay(a.replay)
    return core.run_property(pid, a.tier, a.seed, a.scale, a.leg)


if __name__ == "__main__":
    try:
        rc = main()
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
