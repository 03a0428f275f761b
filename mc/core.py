"""Shared machinery: case runner, oracle bookkeeping, evidence, replay files.

A property module (mc/props/pNN.py) provides
    ID      the property id
    BOUNDS  dict tier -> text describing what is enumerated
    cases(tier)      -> iterable of JSON-able case descriptors (simplest first)
    run(case, ctx)   -> executes every operation history of that case on the
                        real code and compares each step with the reference
"""
import hashlib
import io
import json
import os
import random
import signal
import sys
import time
import traceback
import warnings
from contextlib import contextmanager, redirect_stdout

import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_LIMIT_S = 400


class CaseTimeout(BaseException):
    pass


class Skip(Exception):
    """Abandon the current operation (already recorded)."""


def h64(*parts):
    m = hashlib.blake2b(digest_size=8)
    for p in parts:
        m.update(repr(p).encode())
        m.update(b"\0")
    return int.from_bytes(m.digest(), "little")


def arr_key(a, digits=6):
    """Hashable key of a numeric array up to rounding."""
    a = np.asarray(a, dtype=float)
    s = np.max(np.abs(a)) if a.size else 0.0
    if not np.isfinite(s):
        return (a.shape, "nonfinite")
    e = 1.0 if s == 0 else 10.0 ** (digits - 1 - np.floor(np.log10(s)))
    return (a.shape, (np.round(a * e) + 0.0).tobytes())


class Ctx:
    def __init__(self, pid, case, tier):
        self.pid, self.case, self.tier = pid, case, tier
        self.states, self.outcomes = set(), set()
        self.transitions = 0
        self.comparisons = 0
        self.traces = 0
        self.violations = []
        self.path = []          # labels of the operations on the current history
        self._sigs = set()

    # -- counters ---------------------------------------------------------
    def state(self, *key):
        k = h64(*key)
        new = k not in self.states
        self.states.add(k)
        return new

    def outcome(self, a):
        self.outcomes.add(h64(arr_key(a)))

    def trace(self, n=1):
        self.traces += n

    # -- oracle -----------------------------------------------------------
    def fail(self, sig, msg, **detail):
        if sig in self._sigs:
            return
        self._sigs.add(sig)
        self.violations.append({
            "property": self.pid, "sig": sig, "msg": str(msg)[:1500], "case": self.case,
            "history": list(self.path), "detail": jsonable(detail)})

    def check(self, ok, sig, msg="", **detail):
        self.comparisons += 1
        if not bool(ok):
            self.fail(sig, msg or "condition is false", **detail)
            return False
        return True

    def close(self, got, want, sig, tol=1e-8, msg="", scale=None, shape=True, **detail):
        """got ~ want, relative to the largest magnitude of want (or scale)."""
        self.comparisons += 1
        try:
            g = np.asarray(got, dtype=float)
        except Exception as e:  # noqa
            self.fail(sig, "result is not numeric: %r (%s)" % (type(got), e), **detail)
            return False
        w = np.asarray(want, dtype=float)
        if shape and g.shape != w.shape:
            self.fail(sig, "%s shape %s, expected %s" % (msg, g.shape, w.shape),
                      got=g, want=w, **detail)
            return False
        if not shape:
            if g.size != w.size:
                self.fail(sig, "%s size %s, expected %s" % (msg, g.shape, w.shape),
                          got=g, want=w, **detail)
                return False
            g, w = g.ravel(), w.ravel()
        if w.size == 0:
            return True
        s = scale if scale is not None else max(1.0, float(np.max(np.abs(w))))
        nan_ok = np.array_equal(np.isnan(g), np.isnan(w))
        err = float(np.nanmax(np.abs(g - w))) if not np.all(np.isnan(w)) else 0.0
        self.outcomes.add(h64(arr_key(np.nan_to_num(w))))
        if not nan_ok or not err <= tol * s:
            self.fail(sig, "%s max error %g (scale %g)" % (msg, err, s), got=g, want=w, **detail)
            return False
        return True

    def same(self, got, want, sig, msg="", **detail):
        """Exact equality (of lists, ints, sets, strings, bool, integer arrays)."""
        self.comparisons += 1
        ok = False
        try:
            if isinstance(want, np.ndarray) or isinstance(got, np.ndarray):
                ok = np.array_equal(np.asarray(got), np.asarray(want))
            else:
                ok = bool(got == want)
        except Exception as e:  # noqa
            msg += " (comparison raised %r)" % e
        if not ok:
            self.fail(sig, "%s got %s, expected %s" % (msg, short(got), short(want)), **detail)
        self.outcomes.add(h64(short(want, 400)))
        return ok

    @contextmanager
    def op(self, name, *params, pure=(), sig=None):
        """One transition of the real code.  Any exception is a violation
        (the harness only issues operations in the documented domain);
        objects in `pure` must have the same observable value afterwards."""
        from . import obs
        self.transitions += 1
        label = name if not params else "%s(%s)" % (name, ", ".join(short(p, 80) for p in params))
        sig = sig or name
        self.path.append(label)
        before = [obs.obs(o) for o in pure]
        try:
            yield
            for i, (o, b) in enumerate(zip(pure, before)):
                self.comparisons += 1
                a = obs.obs(o)
                if not obs.same_obs(a, b):
                    self.fail(sig + "/operand-modified",
                              "operation %s changed operand #%d" % (label, i),
                              before=short(b, 600), after=short(a, 600))
        except (Skip, CaseTimeout):
            raise
        except Exception as e:  # noqa
            self.fail(sig + "/raises-" + type(e).__name__, "%s: %s" % (label, e),
                      traceback=traceback.format_exc()[-1500:])
        finally:
            self.path.pop()

    @contextmanager
    def step(self, label):
        self.path.append(label)
        try:
            yield
        finally:
            self.path.pop()


def short(x, n=160):
    if isinstance(x, np.ndarray):
        s = np.array2string(x, precision=6, threshold=60).replace("\n", "")
    else:
        s = repr(x).replace("\n", " ")
    return s if len(s) <= n else s[:n] + "..."


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return short(x, 800)
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return short(x, 800)


# ---------------------------------------------------------------------------
def run_case(mod, case, tier):
    ctx = Ctx(mod.ID, case, tier)

    def on_alarm(*_):
        raise CaseTimeout()

    np.random.seed(12345)
    random.seed(12345)
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(CASE_LIMIT_S)
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"), redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            try:
                mod.run(case, ctx)
            except CaseTimeout:
                ctx.fail("timeout", "case did not finish in %d s" % CASE_LIMIT_S)
            except Skip:
                pass
            except Exception as e:  # noqa
                tb = traceback.extract_tb(e.__traceback__)
                loc = [f for f in tb if "/tensap/" in f.filename]
                where = loc[-1].name if loc else "harness:" + tb[-1].name
                ctx.fail("uncaught/%s@%s" % (type(e).__name__, where), str(e),
                         traceback=traceback.format_exc()[-2000:])
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    if ctx.traces == 0:
        ctx.traces = 1
    return {"states": ctx.states, "outcomes": ctx.outcomes, "transitions": ctx.transitions,
            "comparisons": ctx.comparisons, "traces": ctx.traces, "violations": ctx.violations}


_MOD = None
_TIER = None
_CASES = None


def _work(i):
    t = time.time()
    r = run_case(_MOD, _CASES[i], _TIER)
    r["i"] = i
    r["t"] = time.time() - t
    return r


def load_findings(pid):
    known, fixed = [], []
    path = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.rstrip("\n")
            if line.startswith("finding: property=%s " % pid):
                body = line.split(" ", 2)[2]
                sig, what = body.split(" :: ", 1)
                assert sig.startswith("sig=")
                known.append((sig[4:], what))
            elif line.startswith("fixed: property=%s " % pid):
                fixed.append(line)
    return known, fixed


def main(mod, tier, replay=None, jobs=None, only=None, verbose=False):
    global _MOD, _TIER, _CASES
    pid = mod.ID
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    if replay:
        rep = json.load(open(replay))
        r = run_case(mod, rep["case"], rep.get("tier", tier))
        hit = [v for v in r["violations"] if v["sig"] == rep["sig"]]
        for v in (hit or r["violations"]):
            print(json.dumps(v, indent=1))
        print("replayed: %d violation(s), recorded signature %s" %
              (len(r["violations"]), "reproduced" if hit else "NOT reproduced"))
        return 1 if hit else 0

    cases = list(mod.cases(tier))
    if only is not None:
        cases = [c for c in cases if only in json.dumps(c)]
    _MOD, _TIER, _CASES = mod, tier, cases
    jobs = jobs or int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 1
    order = list(range(len(cases)))
    random.Random(seed).shuffle(order)      # the seed only permutes the exploration order
    res = {"transitions": 0, "comparisons": 0, "traces": 0}
    states, outcomes, viol, digests, slow = set(), set(), [], {}, []

    def absorb(r):
        for k in res:
            res[k] += r[k]
        states.update(r["states"])
        outcomes.update(r["outcomes"])
        for v in r["violations"]:
            viol.append((r["i"], v))
        digests[r["i"]] = (r["transitions"], r["comparisons"], len(r["states"]), len(r["violations"]))
        slow.append((r["t"], r["i"]))

    if jobs == 1 or len(cases) <= 1:
        for i in order:
            absorb(_work(i))
    else:
        import multiprocessing as mp
        chunk = max(1, min(50, len(cases) // (jobs * 8)))
        with mp.get_context("fork").Pool(jobs) as pool:
            for r in pool.imap_unordered(_work, order, chunksize=chunk):
                absorb(r)

    # replay determinism: re-run a few cases here, observations must repeat
    redo = sorted({0, len(cases) // 2, len(cases) - 1} & set(range(len(cases))))
    diverged = 0
    for i in redo:
        r = run_case(mod, cases[i], tier)
        if digests.get(i) != (r["transitions"], r["comparisons"], len(r["states"]), len(r["violations"])):
            diverged += 1

    viol.sort(key=lambda iv: iv[0])
    known, fixed = load_findings(pid)
    for sig, what in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    by_sig, n_known = {}, 0
    known_sigs = {s for s, _ in known}
    for i, v in viol:
        if v["sig"] in known_sigs:
            n_known += 1
            continue
        by_sig.setdefault(v["sig"], []).append((i, v))
    outdir = os.path.join(os.environ.get("VERIF_OUT", os.path.join(ROOT, "out")), pid)
    n = 0
    for sig, vs in by_sig.items():
        n += 1
        if n > 25:
            continue
        i, v = vs[0]
        os.makedirs(outdir, exist_ok=True)
        path = os.path.join(outdir, "violation-%02d.json" % n)
        v = dict(v, tier=tier, occurrences=len(vs),
                 how_to_replay="/verif/check.sh %s --replay %s" % (pid, path))
        with open(path, "w") as f:
            json.dump(v, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  sig=%s (%d cases) history=%s\n  case=%s\n  %s" %
              (sig, len(vs), short(v["history"], 300), short(v["case"], 200), short(v["msg"], 300)))

    wall = time.time() - t0
    step = max(1, len(cases) // 4)
    cov = {
        "states": len(states) or len(cases),
        "transitions": res["transitions"],
        "traces_validated_against_impl": res["traces"],
        "cases": len(cases),
        "oracle_comparisons": res["comparisons"],
        "distinct_outcomes": len(outcomes),
        "exhaustive": only is None,
        "bounds": mod.BOUNDS.get(tier, mod.BOUNDS.get("quick")) if isinstance(mod.BOUNDS, dict) else mod.BOUNDS,
        "samples": [jsonable(c) for c in cases[::step][:5]],
        "replayed_cases": len(redo), "replays_diverged": diverged,
        "known_finding_hits": n_known,
        "slowest_case_s": round(max(slow)[0], 3) if slow else 0,
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": cov, "assumptions": getattr(mod, "ASSUMPTIONS", []) + COMMON_ASSUMPTIONS,
          "wall_s": round(wall, 2), "violations": len(by_sig)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d cases, %d states, %d transitions, %d traces, %d comparisons, %d distinct outcomes, "
          "%d violations (%d known hits), %.1f s" %
          (pid, tier, len(cases), cov["states"], res["transitions"], res["traces"], res["comparisons"],
           len(outcomes), len(by_sig), n_known, wall))
    if verbose:
        for t, i in sorted(slow, reverse=True)[:5]:
            print("   %.2fs %s" % (t, short(cases[i], 200)))
    return 1 if by_sig else 0


COMMON_ASSUMPTIONS = [
    "values outside the enumerated data patterns are covered only through the (multi)linearity of the "
    "operations; floating-point comparisons use a relative tolerance",
    "the reference model (plain numpy on dense arrays, or exact enumeration) is correct",
]
