import argparse
import importlib
import os
import sys

for v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[v] = "1"
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    from mc import core
    try:
        import tensap
        assert os.path.realpath(tensap.__file__).startswith(os.path.realpath(REPO) + "/"), tensap.__file__
    except Exception as e:  # the code under test cannot even be imported
        import json
        out = os.path.join(os.environ.get("VERIF_OUT", os.path.join(core.ROOT, "out")), a.pid)
        os.makedirs(out, exist_ok=True)
        path = os.path.join(out, "violation-import.json")
        json.dump({"property": a.pid, "sig": "import", "msg": repr(e), "case": None}, open(path, "w"))
        print("VIOLATION property=%s replay=%s" % (a.pid, path))
        print("  import of the package fails: %r" % e)
        return 1
    mod = importlib.import_module("mc.props." + a.pid.lower())
    return core.main(mod, a.tier, a.replay, a.jobs, a.only, a.v)


if __name__ == "__main__":
    sys.exit(main())
