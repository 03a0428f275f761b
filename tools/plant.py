#!/usr/bin/python3
"""Makes /verif/seeded/<id> from a specification and confirms it in a scratch copy of /repo.
usage: plant.py SPEC.py [ID ...]   where SPEC.py defines SEEDS = [dict(id, property, file, edits=[(old, new)], needs, breaks, demo)]
Confirms: applies; changes lines of the original repository; the demo passes without and fails with it; the check of the property (--only none) is not run."""
import json
import os
import shutil
import subprocess
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
SEEDED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
spec = {}
exec(open(sys.argv[1]).read(), spec)
want = sys.argv[2:]
first = subprocess.check_output(["git", "-C", REPO, "rev-list", "--max-parents=0", "HEAD"], text=True).split()[0]
for s in spec["SEEDS"]:
    if want and s["id"] not in want:
        continue
    W = "/tmp/plantrepo%d" % os.getpid()
    shutil.rmtree(W, ignore_errors=True)
    subprocess.check_call(["cp", "-a", REPO, W])
    files = [(s["file"], s["edits"])] if "file" in s else s["files"]
    for f, edits in files:
        p = W + "/tensap/" + f
        t = open(p).read()
        orig = subprocess.check_output(["git", "-C", REPO, "show", first + ":tensap/" + f], text=True)
        for old, new in edits:
            assert t.count(old) == 1, (s["id"], f, t.count(old), old)
            assert old in orig, ("not original", s["id"], old)
            t = t.replace(old, new)
        open(p, "w").write(t)
    diff = subprocess.check_output(["git", "-C", W, "diff"], text=True)
    d = os.path.join(SEEDED, s["id"])
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.py", "w").write(s["demo"].strip() + "\n")
    open(d + "/demo.sh", "w").write('#!/bin/sh\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1")
    a = subprocess.run(["sh", d + "/demo.sh"], cwd=REPO, env=dict(env, PYTHONPATH=REPO), capture_output=True, text=True)
    b = subprocess.run(["sh", d + "/demo.sh"], cwd=W, env=dict(env, PYTHONPATH=W), capture_output=True, text=True)
    ok = a.returncode == 0 and b.returncode != 0
    tests = "-"
    if ok and not os.environ.get("NOTEST"):
        t = subprocess.run("/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider -n 8 --timeout=400 -W ignore -p randomly --randomly-seed=0 "
                           "--randomly-dont-reorganize --deselect 'test/test_tutorials.py::test_tutorial[tutorials/approximation/tutorial_tensor_learning_tensorized_function_learning.py]' "
                           "--deselect 'test/test_tutorials.py::test_tutorial[tutorials/approximation/tutorial_tensor_learning_TreeBasedTensorDensityLearning.py]' "
                           "--maxfail=3 test 2>&1 | grep -v digits | tail -5", shell=True, cwd=W, env=dict(env, PYTHONPATH=W, PYTHONHASHSEED="0"), capture_output=True, text=True)
        tests = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else "?"
    print(s["id"], "OK" if ok else "BAD", "demo:", a.returncode, b.returncode, (b.stdout + b.stderr).strip().splitlines()[-1:], a.stderr[-300:] if a.returncode else "", "| tests:", tests, flush=True)
    shutil.rmtree(W, ignore_errors=True)
