"""Measures: distribution functions, quantiles, moments, marginals, random generation."""
import itertools
from unittest import mock

import numpy as np
import tensap

from .. import ref, rng

ID = "P14"
BOUNDS = {
    "quick": "uniform and normal variables over a parameter grid, every discrete variable with 1..4 atoms taken from {-2,0,0.5,3.25} in every "
             "order with weights over {0,1,2,3}, empirical variables of five samples; arguments at both ends, at and around every "
             "atom and on a grid of 41 quantiles; products of up to three marginals, every sub-list and permutation of marginals, the same with a copula (3 parameters), Latin hypercubes; "
             "every uniform draw over {0, 1/8, .., 7/8, 1-2^-53} and every answer of the atom sampler",
    "thorough": "as quick with finer argument grids and products of up to four marginals",
}
U, N, D, E = (tensap.UniformRandomVariable, tensap.NormalRandomVariable, tensap.DiscreteRandomVariable,
              tensap.EmpiricalRandomVariable)
QS = np.concatenate(([0.0, 1e-12, 1e-3], np.linspace(0.025, 0.975, 39), [1 - 1e-3, 1 - 1e-12, 1.0]))
ATOMS = (-2.0, 0.0, 0.5, 3.25)
SAMPLES = ([0.0, 1.0, 3.0], [2.0, -1.0, 0.5, 4.0, 4.5], [-1.0, 1.0], [10.0, 20.0, 25.0, 70.0], [0.001, 0.002, 0.005, 0.0055])


def cases(tier):
    for a in (-1.0, 0.0, 2.5, -3):
        for w in (0.5, 1, 2, 7.0):
            yield {"kind": "uniform", "a": a, "w": w}
    for m in (-2, 0.0, 1.5):
        for s in (0.25, 1, 3.0):
            yield {"kind": "normal", "m": m, "s": s}
    for n in (1, 2, 3, 4):
        for v in itertools.permutations(ATOMS, n):
            if n == 4 and tier == "quick" and v[0] > v[1] and v[2] > v[3]:
                continue
            yield {"kind": "discrete", "v": list(v)}
    for i in range(len(SAMPLES)):
        yield {"kind": "empirical", "i": i}
    yield {"kind": "lebesgue"}
    for d in (1, 2, 3):
        yield {"kind": "box", "d": d}
        for sel in itertools.product(range(5), repeat=d):
            if len(set(sel)) == d or tier != "quick":
                yield {"kind": "joint", "sel": list(sel)}
    for sh in ([1], [3], [2, 3], [3, 1, 2]):
        yield {"kind": "indices", "sh": sh}
    yield {"kind": "eq"}
    for d in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for sel in itertools.product(range(5), repeat=d):
            if d == 4 and len(set(sel)) < 3:
                continue
            yield {"kind": "vector", "sel": list(sel)}


def run(case, ctx):
    globals()["run_" + case["kind"]](case, ctx)


GL = np.polynomial.legendre.leggauss(200)


def integ(f, a, b):
    x = (a + b) / 2 + (b - a) / 2 * GL[0]
    return float(np.sum(GL[1] * f(x)) * (b - a) / 2)


def continuous(ctx, X, lo, hi, sig, tol=1e-9, stats=None):
    """lo, hi: interval outside of which the density is negligible"""
    P = [X]
    x = np.linspace(lo, hi, 41)
    with ctx.op("cdf/pdf", pure=P + [x], sig=sig + "/cdf"):
        c, f = np.ravel(X.cdf(x)), np.ravel(X.pdf(x))
        ctx.check(np.all(np.diff(c) >= -1e-12) and np.all(f >= 0), sig + "/cdf", "not monotone or negative density")
        ctx.close([integ(lambda t: np.ravel(X.pdf(t)), lo, t) for t in x[1:]], c[1:] - c[0], sig + "/cdf", tol=tol * 100)
        ctx.close([c[0], c[-1]], [0, 1], sig + "/cdf", tol=1e-6)
        ctx.close(float(np.ravel(X.cdf(float(x[7])))[0]), c[7], sig + "/cdf")
        ctx.close(float(np.ravel(X.pdf(float(x[7])))[0]), f[7], sig + "/pdf")
    with ctx.op("icdf", pure=P + [QS], sig=sig + "/icdf"):
        q = QS[1:-1]
        y = np.ravel(X.icdf(q))
        ctx.close(np.ravel(X.cdf(y)), q, sig + "/icdf", tol=1e-8, msg="cdf(icdf(q)):")
        ctx.check(np.all(np.diff(y) >= -1e-9 * max(1.0, abs(hi - lo))), sig + "/icdf", "not monotone")
        ctx.close(float(np.ravel(X.icdf(0.3))[0]), float(np.ravel(X.icdf(np.array([0.3])))[0]), sig + "/icdf")
        s = np.ravel(np.array(X.support(), dtype=float))
        e = np.ravel(X.icdf(np.array([0.0, 1.0])))
        ctx.same([float(v) if np.isinf(v) else round(float(v), 9) for v in e],
                 [float(v) if np.isinf(v) else round(float(v), 9) for v in s], sig + "/icdf", "quantiles 0 and 1")
        ctx.same((float(X.min()), float(X.max())), (float(s[0]), float(s[1])), sig + "/support")
    m = integ(lambda t: t * np.ravel(X.pdf(t)), lo, hi)
    v = integ(lambda t: (t - m) ** 2 * np.ravel(X.pdf(t)), lo, hi)
    if stats is not None:
        m, v = stats
    with ctx.op("statistics", pure=P, sig=sig + "/statistics"):
        ctx.close(X.mean(), m, sig + "/mean", tol=tol)
        ctx.close(X.variance(), v, sig + "/variance", tol=tol)
        ctx.close(X.std(), np.sqrt(v), sig + "/std", tol=tol)
        ctx.close(list(X.random_variable_statistics()), [m, v], sig + "/statistics", tol=tol)
        ctx.same(float(X.mass()), 1.0, sig + "/mass")
        ctx.same(int(X.ndim()), 1, sig + "/ndim")
        ctx.check(not X.is_discrete() or isinstance(X, E), sig + "/is_discrete")
    ctx.state(sig, X.get_parameters())


def moments(ctx, X, f, sig, orders=6, tol=1e-9):
    """f(k): exact moment of order k; every way of asking for and storing them"""
    every = [f(k) for k in range(orders + 1)]
    for ind in [0, 1, orders, [0, 1, 2], list(range(orders + 1)), [2], [3, 1], [2, 2], np.array([orders, 0])]:
        with ctx.op("moment", ind, pure=[X, ind], sig=sig + "/moment"):
            w = [every[k] for k in np.ravel(ind)]
            ctx.close(X.moment(ind), w, sig + "/moment", tol=tol, scale=max(1.0, max(map(abs, w))))
        with ctx.op("moment/store", ind, pure=[X], sig=sig + "/moment/stored"):
            m, Y = X.moment(ind, 2)
            ctx.close(m, w, sig + "/moment/stored", tol=tol, scale=max(1.0, max(map(abs, w))))
            for k in range(orders + 1):
                ctx.close(Y.moment(k), [every[k]], sig + "/moment/stored", tol=tol, scale=max(1.0, abs(every[k])),
                          msg="moment %d after storing %s:" % (k, ind))
            ctx.check(Y == X, sig + "/moment/stored", "variable changed")


def run_uniform(case, ctx):
    a, b = case["a"], case["a"] + case["w"]
    X = U(a, b)
    ctx.trace()
    continuous(ctx, X, a, b, "uniform")
    moments(ctx, X, lambda k: (b ** (k + 1) - a ** (k + 1)) / ((k + 1) * (b - a)), "uniform")
    common(ctx, X, a, b, "uniform")
    for m in (-1.0, 0, 2):
        for s in (0.5, 1, 3):
            with ctx.op("shift", m, s, pure=[X], sig="uniform/shift"):
                Y = X.shift(m, s)
                ctx.close(np.ravel(Y.support()), [s * a + m, s * b + m], "uniform/shift")
    with ctx.op("random", sig="uniform/random"):
        with rng.patched(uniform=lambda s: np.arange(int(np.prod(s))).reshape(s) / 8.0) as used:
            r = X.random(8)
            if used:
                ctx.close(r, a + (b - a) * np.arange(8) / 8, "uniform/random")
            ctx.same(np.shape(X.random()), (1,), "uniform/random")


def run_normal(case, ctx):
    m, s = case["m"], case["s"]
    X = N(m, s)
    ctx.trace()
    continuous(ctx, X, m - 9 * s, m + 9 * s, "normal", tol=1e-8)
    cm = lambda k: 0 if k % 2 else float(np.prod(np.arange(k - 1, 0, -2)))   # noqa
    from math import comb
    moments(ctx, X, lambda k: sum(comb(k, j) * m ** (k - j) * s ** j * cm(j) for j in range(k + 1)), "normal")
    common(ctx, X, -np.inf, np.inf, "normal")
    for b in (-1.0, 0, 2):
        for c in (0.5, 1, 3):
            with ctx.op("shift", b, c, pure=[X], sig="normal/shift"):
                Y = X.shift(b, c)
                ctx.close([float(Y.mean()), float(Y.std())], [m + b, s * c], "normal/shift")
    with ctx.op("random", sig="normal/random"):
        with rng.patched(normal=lambda s: np.arange(int(np.prod(s))).reshape(s) - 4.0) as used:
            r = X.random(8)
            if used:
                ctx.close(r, m + s * (np.arange(8) - 4.0), "normal/random")


def common(ctx, X, lo, hi, sig):
    for Y in (U(0, 1), U(-2, 5), N(0, 1), N(3, 0.5)):
        q = QS[2:-2]
        x = np.ravel(X.icdf(q))
        with ctx.op("transfer", Y, pure=[X, Y, x], sig=sig + "/transfer"):
            ctx.close(np.ravel(X.transfer(Y, x)), np.ravel(Y.icdf(q)), sig + "/transfer", tol=1e-7)
            ctx.close(np.ravel(Y.transfer(X, X.transfer(Y, x))), x, sig + "/transfer", tol=1e-6)
    for p in (1 - 2e-16, 0.9, 0.5):
        with ctx.op("truncated_support", p, pure=[X], sig=sig + "/truncated_support"):
            t = np.ravel(X.truncated_support(p))
            w = [float(X.icdf((1 - p) / 2)) if np.isinf(lo) else lo, float(X.icdf(1 - (1 - p) / 2)) if np.isinf(hi) else hi]
            ctx.close(t, w, sig + "/truncated_support")
            ctx.check(np.all(np.isfinite(t)) and t[0] < t[1], sig + "/truncated_support", str(t))
            ctx.same([float(v) for v in np.ravel(X.support())], [float(lo), float(hi)], sig + "/support")
    for n in (1, 2, 3, 4, 7, 0.5, 0.2, 0.3, 0.15):
        k = n if n >= 1 else int(np.ceil(1 / n))
        with ctx.op("iso_probabilistic_grid", n, pure=[X], sig=sig + "/iso_probabilistic_grid"):
            g = np.ravel(X.iso_probabilistic_grid(n))
            ctx.same(len(g), k + 1, sig + "/iso_probabilistic_grid")
            ctx.close(np.diff(np.concatenate(([0.0], np.ravel(X.cdf(g[1:-1])), [1.0]))), np.full(k, 1 / k),
                      sig + "/iso_probabilistic_grid")
            ctx.same((float(g[0]), float(g[-1])), (float(lo), float(hi)), sig + "/iso_probabilistic_grid")
    for n in (1, 2, 5):
        with ctx.op("discretize", n, pure=[X], sig=sig + "/discretize"):
            Z = X.discretize(n)
            ctx.close(np.ravel(Z.values), np.ravel(X.icdf((np.arange(n) + 0.5) / n)), sig + "/discretize")
            ctx.close(np.ravel(Z.probabilities), np.full(n, 1 / n), sig + "/discretize")
    t = np.ravel(X.truncated_support())
    for n, s in ((1, None), (4, None), (3, [0.0, 2.0]), (np.array([-1.0, 0.5, 2.0]), None)):
        with ctx.op("discretize_support", n, s, pure=[X, n], sig=sig + "/discretize_support"):
            Z = X.discretize_support(n, s)
            if np.ndim(n):
                x = n
            else:
                r = t if s is None else s
                x = r[0] + (np.arange(n) + 0.5) / n * (r[1] - r[0])
            mid = (x[1:] + x[:-1]) / 2
            c = np.concatenate(([0.0], np.ravel(X.cdf(mid)), [1.0]))
            ctx.close(np.ravel(Z.values), x, sig + "/discretize_support")
            ctx.close(np.ravel(Z.probabilities), np.diff(c), sig + "/discretize_support")
    for x in (np.ravel(X.icdf(np.array([0.2, 0.5, 0.9]))),):
        with ctx.op("likelihood", pure=[X, x], sig=sig + "/likelihood"):
            ctx.close(X.likelihood(x), np.sum(np.log(np.ravel(X.pdf(x)))), sig + "/likelihood", tol=1e-7)
    for n in (1, 3):
        drawn = []

        class S:
            def __init__(self, d, **kw):
                self.d = d

            def random(self, n=1):
                drawn.append(n)
                return (np.arange(n * self.d).reshape(n, self.d) + 0.5) / (n * self.d)
        with ctx.op("lhs_random", n, pure=[X], sig=sig + "/lhs_random"), mock.patch("scipy.stats.qmc.LatinHypercube", S):
            r = np.ravel(X.lhs_random(n))
            if drawn:
                ctx.close(r, np.ravel(X.icdf((np.arange(n) + 0.5) / n)), sig + "/lhs_random", tol=1e-7)


def run_discrete(case, ctx):
    v = case["v"]
    n = len(v)
    ws = [None] + [w for w in itertools.product((0, 1, 2, 3), repeat=n) if sum(w) > 0]
    if n == 4:
        ws = [None] + [w for w in ws[1:] if w[0] <= 1 and (w[1] + w[2] + w[3]) % 3 == 0]
    for w in ws:
        p = [1 / n] * n if w is None else [x / sum(w) for x in w]
        ctx.trace()
        with ctx.step("weights %s" % (w,)):
            discrete(ctx, v, None if w is None else np.array(w, dtype=float), p)


def discrete(ctx, v, w, p):
    n = len(v)
    sig = "discrete"
    X = None
    with ctx.op("construct", v, w, pure=[v, w], sig=sig + "/construct"):
        X = D(v, w)
        ctx.close(np.ravel(X.values), v, sig + "/construct")
        ctx.close(np.ravel(X.probabilities), p, sig + "/construct")
        ctx.check(X.is_discrete() and int(X.ndim()) == 1, sig + "/construct")
    if X is None:
        return
    P = [X]
    xs = np.array(sorted({a + e for a in ATOMS for e in (-0.2, 0.0, 0.2)}))
    cdf = lambda x: sum(q for a, q in zip(v, p) if a <= x)   # noqa
    with ctx.op("cdf", pure=P + [xs], sig=sig + "/cdf"):
        ctx.close(X.cdf(xs), [cdf(x) for x in xs], sig + "/cdf")
        ctx.close(X.cdf(xs[:9].reshape(3, -1)), np.array([cdf(x) for x in xs[:9]]).reshape(3, -1), sig + "/cdf")
        ctx.close(X.cdf(0.5), cdf(0.5), sig + "/cdf")
    # quantile: smallest atom with cdf >= q (q strictly between two levels, and exactly at the last level)
    order = sorted(range(n), key=lambda i: v[i])
    lev = np.cumsum([p[i] for i in order])
    qs, want = [], []
    prev = 0.0
    for i, l in zip(order, lev):
        if p[i] > 0:
            qs += [prev + (l - prev) * 0.25, l - 1e-9]
            want += [v[i]] * 2
        prev = l
    qs.append(1.0)
    want.append(max(a for a, q in zip(v, p) if q > 0))
    with ctx.op("icdf", qs, pure=P, sig=sig + "/icdf"):
        ctx.close(X.icdf(np.array(qs)), want, sig + "/icdf")
        ctx.close(float(X.icdf(qs[0])), want[0], sig + "/icdf")
        g = np.linspace(0.01, 1, 34)
        y = np.ravel(X.icdf(g))
        ctx.check(np.all(np.diff(y) >= 0), sig + "/icdf", "quantile function decreases")
        ctx.check(np.all(np.array([cdf(t) for t in y]) >= g - 1e-9), sig + "/icdf", "cdf(icdf(q)) < q")
    m = sum(a * q for a, q in zip(v, p))
    var = sum((a - m) ** 2 * q for a, q in zip(v, p))
    with ctx.op("statistics", pure=P, sig=sig + "/statistics"):
        ctx.close(float(np.ravel(X.mean())[0]), m, sig + "/mean")
        ctx.close(float(np.ravel(X.variance())[0]), var, sig + "/variance")
        ctx.close(float(np.ravel(X.var())[0]), var, sig + "/variance")
        if var > 1e-12:
            ctx.close(float(np.ravel(X.std())[0]), np.sqrt(var), sig + "/std")
        ctx.close(np.ravel(X.support()), [min(v), max(v)], sig + "/support")
        ctx.same((float(X.min()), float(X.max())), (min(v), max(v)), sig + "/support")
        ctx.close(np.ravel(X.truncated_support()), [min(v), max(v)], sig + "/support")
        I = X.integration_rule()
        ctx.close(float(np.ravel(I.integrate(lambda x: x ** 3))[0]), sum(a ** 3 * q for a, q in zip(v, p)), sig + "/integration_rule")
    if var > 1e-12:
        with ctx.op("standard", pure=P, sig=sig + "/standard"):
            S = X.get_standard_random_variable()
            ctx.close([float(np.ravel(S.mean())[0]), float(np.ravel(S.variance())[0])], [0, 1], sig + "/standard")
            ctx.close(np.ravel(S.values), (np.array(v) - m) / np.sqrt(var), sig + "/standard")
    for k in (1, 2, 3, 4, 0.5, 0.3):
        with ctx.op("iso_probabilistic_grid", k, pure=P, sig=sig + "/iso_probabilistic_grid"):
            g = np.ravel(X.iso_probabilistic_grid(k))
            kk = k if k >= 1 else int(np.ceil(1 / k))
            ctx.same(len(g), kk + 1, sig + "/iso_probabilistic_grid")
            # levels that do not fall on a jump of the distribution function
            ok = [j for j in range(1, kk) if np.min(np.abs(lev - j / kk)) > 1e-9]
            ctx.close(g[ok], [next(v[i] for i, l in zip(order, lev) if l > j / kk) for j in ok], sig + "/iso_probabilistic_grid")
            ctx.same((float(g[0]), float(g[-1])), (float(min(v)), float(max(v))), sig + "/iso_probabilistic_grid")
    for c in (0.5, 0.25, 3):
        with ctx.op("masses", c, pure=P, sig=sig + "/construct"):
            Y = D(v, [c * q for q in p])
            ctx.close(np.ravel(Y.probabilities), p, sig + "/construct", msg="masses times %s:" % c)
            ctx.close(np.ravel(Y.cdf(xs)), [cdf(x) for x in xs], sig + "/cdf")
    for Y in (U(-2, 5), N(3, 0.5)):
        sup = np.array(sorted(a for a, q in zip(v, p) if q > 0))[:-1]
        if len(sup):
            with ctx.op("transfer", Y, pure=P, sig=sig + "/transfer"):
                ctx.close(np.ravel(X.transfer(Y, sup)), np.ravel(Y.icdf(np.array([cdf(a) for a in sup]))), sig + "/transfer")
        with ctx.op("transfer from", Y, pure=P, sig=sig + "/transfer"):
            ctx.close(np.ravel(Y.transfer(X, Y.icdf(np.array(qs[:-1])))), want[:-1], sig + "/transfer")
    if min(p) > 0:
        if n >= 2:
            k = 6
            moments(ctx, X, lambda j: sum(a ** j * q for a, q in zip(v, p)), sig, orders=k, tol=1e-7)
        atoms(ctx, X, v, p, sig)
    for k in range(1, n + 3):
        pos = sum(q > 0 for q in p)
        with ctx.op("gauss_integration_rule", k, pure=P, sig=sig + "/gauss"):
            G = X.gauss_integration_rule(k)
            gp, gw = np.ravel(G.points), np.ravel(G.weights)
            ctx.same(gp.size, min(k, pos), sig + "/gauss", "number of nodes")
            ctx.check(np.all(gw > 0), sig + "/gauss", "weights %s" % gw)
            for j in range(2 * k if k <= pos else 2 * n + 3):
                w = sum(q * (a / 3.25) ** j for a, q in zip(v, p))
                ctx.close(float(np.sum(gw * (gp / 3.25) ** j)), w, sig + "/gauss", tol=1e-8, scale=1.0)
    ctx.state(sig, tuple(v), tuple(np.round(p, 6)))


def atoms(ctx, X, v, p, sig):
    """random generation: the sampler is asked for positions with the right weights and every position maps to its atom"""
    n = len(v)
    asked = []

    def choice(a, size=None, replace=True, p=None):
        asked.append((int(np.size(np.arange(a))) if np.ndim(a) == 0 else len(a), None if p is None else [float(t) for t in p]))
        pool = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        return pool[np.arange(int(size)) % len(pool)]
    with ctx.op("random", pure=[X], sig=sig + "/random"), rng.patched(choice=choice):
        r = np.ravel(X.random(n))
        if asked:
            ctx.close(r, v, sig + "/random")
            ctx.close(asked[0][1], p, sig + "/random", msg="weights of the sampler:")
            ctx.same(np.shape(X.random(2)), (2,), sig + "/random", "shape")
            ctx.same(np.shape(X.random()), (1,), sig + "/random", "shape")


def run_lebesgue(case, ctx):
    L, DM = tensap.LebesgueMeasure, tensap.DiscreteMeasure
    for a, b in ((0, 1), (-1, 1), (-2.0, 3.0), (1, 1.5), (0.0, 2.0), (3, 5)):
        X = L(a, b)
        ctx.trace()
        with ctx.op("polynomials", a, b, pure=[X], sig="lebesgue/polynomials"):
            t, w = np.polynomial.legendre.leggauss(12)
            t, w = (a + b) / 2 + (b - a) / 2 * t, w * (b - a) / 2
            v = X.orthonormal_polynomials().polyval(list(range(6)), t)
            ctx.close(v.T @ (w[:, None] * v), np.eye(6), "lebesgue/polynomials")
            v = U(a, b).orthonormal_polynomials().polyval(list(range(6)), t)
            ctx.close(v.T @ (w[:, None] / (b - a) * v), np.eye(6), "uniform/polynomials")
            G = X.gauss_integration_rule(3)
            for k in range(6):
                ctx.close(float(np.sum(np.ravel(G.weights) * np.ravel(G.points) ** k)), float(np.sum(w * t ** k)), "lebesgue/gauss",
                          tol=1e-9, scale=5.0 ** k)
        with ctx.op("lebesgue", a, b, pure=[X], sig="lebesgue"):
            ctx.close(float(X.mass()), b - a, "lebesgue/mass")
            ctx.close(np.ravel(X.support()), [a, b], "lebesgue/support")
            ctx.close(np.ravel(X.truncated_support()), [a, b], "lebesgue/support")
            ctx.same(int(X.ndim()), 1, "lebesgue/ndim")
            ctx.check(not X.is_discrete(), "lebesgue/is_discrete")
            for m in (-1.0, 0, 2):
                for s in (0.5, 1, 3):
                    Y = X.shift(m, s)
                    ctx.close(np.ravel(Y.support()), [m + s * a, m + s * b], "lebesgue/shift")
            with rng.patched(uniform=lambda s: np.arange(int(np.prod(s))).reshape(s) / 8.0) as used:
                r = X.random(8)
            if used:
                ctx.close(r, a + (b - a) * np.arange(8) / 8, "lebesgue/random")
    for v, w in (([1.0, 2.0, -1.0], None), ([3.0, 0.0], [2.0, 0.5]), ([4.0, 1.0, 2.0], [1.0, 0.0, 2.0]), ([5.0], [2.0])):
        X = DM(v, w)
        ww = [1.0] * len(v) if w is None else w
        ctx.trace()
        with ctx.op("discrete measure", v, w, pure=[X], sig="discrete_measure"):
            ctx.close(float(X.mass()), sum(ww), "discrete_measure/mass")
            ctx.close(np.ravel(X.support()), [min(v), max(v)], "discrete_measure/support")
            ctx.same(int(X.ndim()), 1, "discrete_measure/ndim")
            ctx.check(X.is_discrete(), "discrete_measure/is_discrete")
            ctx.check(X == DM(list(v), w), "discrete_measure/eq")
            ctx.check(not (X == DM([a + 1 for a in v], w)), "discrete_measure/eq")
            I = X.integration_rule()
            ctx.close(float(np.ravel(I.integrate(lambda x: x ** 2))[0]), sum(a * a * b for a, b in zip(v, ww)), "discrete_measure/rule")
            # inverse-cdf sampling: the draw u falls in the atom whose cumulated weight first reaches u
            c = np.cumsum(ww) / sum(ww)
            us = [k / 8 for k in range(1, 8)] + [1 - 2.0 ** -53]
            with rng.patched(uniform=lambda s: np.resize(us, s)) as used:
                got = np.ravel(X.random(len(us)))
            want = [v[int(np.nonzero(c >= u - 1e-15)[0][0])] for u in us]
            if used:
                ctx.close(got, want, "discrete_measure/random")
            ctx.same(np.shape(X.random(1)), (1,), "discrete_measure/random", "shape")


def run_eq(case, ctx):
    mk = [lambda: U(-1, 1), lambda: U(0, 1), lambda: U(-1, 2), lambda: N(0, 1), lambda: N(1, 1), lambda: N(0, 2),
          lambda: D([0.0, 1.0]), lambda: D([0.0, 1.0], [1, 3]), lambda: D([0.0, 1.0, 2.0]), lambda: D([0.0, 2.0]), lambda: D([5.0]),
          lambda: E(np.array([0.0, 1.0, 3.0])), lambda: E(np.array([0.0, 1.0, 4.0])), lambda: E(np.array([0.0, 1.0])),
          lambda: tensap.LebesgueMeasure(0, 1), lambda: tensap.LebesgueMeasure(-1, 1), lambda: tensap.DiscreteMeasure([0.0, 1.0]),
          lambda: tensap.DiscreteMeasure([0.0, 1.0], [1, 2]), lambda: tensap.DiscreteMeasure([0.0, 1.0], [2, 1]),
          lambda: tensap.DiscreteMeasure([0.0, 2.0], [1, 2]), lambda: D([0.0, 1.0], [3, 1]),
          lambda: D(np.array([[0.0, 1.0], [1.0, 0.0]])), lambda: D(np.array([[0.0, 1.0], [1.0, 2.0]]))]
    objs = [f() for f in mk]
    for i, x in enumerate(objs):
        for j, f in enumerate(mk):
            y = f()
            ctx.trace()
            with ctx.op("==", x, y, pure=[x, y], sig="eq"):
                r = x == y
                ctx.same(bool(r), i == j, "eq", "measures %d and %d" % (i, j))
    rvs = [i for i in range(14)]
    for i in rvs:
        for j in rvs:
            for k in (i, j):
                with ctx.op("== vectors", i, j, k, sig="eq/vector"):
                    a = tensap.RandomVector([mk[i](), mk[j]()])
                    b = tensap.RandomVector([mk[i](), mk[k]()])
                    ctx.same(bool(a == b), j == k, "eq/vector")
                    ctx.same(bool(a == tensap.RandomVector([mk[i]()])), False, "eq/vector")
                    a, b = tensap.ProductMeasure([mk[i](), mk[j]()]), tensap.ProductMeasure([mk[i](), mk[k]()])
                    ctx.same(bool(a == b), j == k, "eq/product")
                    ctx.same(bool(a == tensap.ProductMeasure([mk[i]()])), False, "eq/product", "different dimensions")
                    ctx.same(bool(a == mk[i]()), False, "eq/product", "with a univariate measure")


def run_empirical(case, ctx):
    s = np.array(SAMPLES[case["i"]])
    X = E(s.copy())
    h = 3.5 * np.std(s) * len(s) ** (-1 / 3)
    ctx.trace()
    sig = "empirical"
    from scipy.stats import norm
    with ctx.op("definition", pure=[X], sig=sig + "/definition"):
        x = np.linspace(s.min() - 4 * h, s.max() + 4 * h, 31)
        ctx.close(np.ravel(X.pdf(x)), np.mean(norm.pdf(x[:, None], s, h), 1), sig + "/pdf")
        ctx.close(np.ravel(X.cdf(x)), np.mean(norm.cdf(x[:, None], s, h), 1), sig + "/cdf", tol=1e-7)
    continuous(ctx, X, s.min() - 9 * h, s.max() + 9 * h, sig, tol=1e-8, stats=(np.mean(s), np.var(s)))
    for Y in (U(0, 1), N(3, 0.5), X.get_standard_random_variable(), E(np.array([0.0, 1.0, 7.0])), E(np.array([1.0, 2.0]))):
        with ctx.op("transfer", Y, pure=[X, Y], sig=sig + "/transfer"):
            q = np.array([0.05, 0.3, 0.8])
            x = np.ravel(X.icdf(q))
            ctx.close(np.ravel(X.transfer(Y, x)), np.ravel(Y.icdf(q)), sig + "/transfer", tol=1e-6)
    with ctx.op("standard", pure=[X], sig=sig + "/standard"):
        S = X.get_standard_random_variable()
        ctx.close([float(S.mean()), float(S.variance())], [0, 1], sig + "/standard")
        ctx.close(np.ravel(S.sample), (s - s.mean()) / s.std(), sig + "/standard")
    for b, c in ((0.0, 1.0), (2.0, 0.5), (-1.0, 3.0)):
        with ctx.op("shift", b, c, pure=[X], sig=sig + "/shift"):
            Y = X.shift(b, c)
            ctx.close([float(Y.mean()), float(Y.std())], [b + c * s.mean(), c * s.std()], sig + "/shift")
    with ctx.op("integration_rule", pure=[X], sig=sig + "/integration_rule"):
        I = X.integration_rule(4)
        for k in range(8):
            w = np.mean([integ(lambda t: t ** k * norm.pdf(t, a, h), a - 12 * h, a + 12 * h) for a in s])
            ctx.close(float(np.ravel(I.integrate(lambda t: t ** k))[0]), w, sig + "/integration_rule", tol=1e-8,
                      scale=max(1.0, abs(w)))
    with ctx.op("random", pure=[X], sig=sig + "/random"), rng.patched(uniform=lambda s: (np.arange(int(np.prod(s))).reshape(s) + 1) / (np.prod(s) + 1)) as used:
        r = np.ravel(X.random(3))
        if used:
            ctx.close(r, np.ravel(X.icdf(np.array([0.25, 0.5, 0.75]))), sig + "/random")
    for p in (0.9, 1 - 2e-16):
        with ctx.op("truncated_support", p, pure=[X], sig=sig + "/truncated_support"):
            t = np.ravel(X.truncated_support(p))
            ctx.close(np.ravel(X.cdf(t)), [(1 - p) / 2, 1 - (1 - p) / 2], sig + "/truncated_support", tol=1e-7)


MARG = [lambda: U(-1, 1), lambda: U(2, 5), lambda: N(0.5, 2), lambda: D([0.0, 1.0, 3.0], [1, 2, 1]), lambda: N(-1, 0.5)]


def run_vector(case, ctx):
    sel = case["sel"]
    d = len(sel)
    X1 = [MARG[i]() for i in sel]
    X = tensap.RandomVector([MARG[i]() for i in sel])
    P = tensap.ProductMeasure([MARG[i]() for i in sel])
    ctx.trace()
    sig = "vector"
    disc = [i == 3 for i in sel]
    q = np.array([[0.1 + 0.2 * ((r + k) % 4) for k in range(d)] for r in range(5)])
    x = np.column_stack([np.ravel(X1[k].icdf(q[:, k])) for k in range(d)])
    with ctx.op("structure", pure=[X, P], sig=sig + "/structure"):
        ctx.same((int(X.size), int(X.ndim()), int(P.ndim())), (d,) * 3, sig + "/structure")
        ctx.check(all(a == b for a, b in zip(X.random_variables, X1)), sig + "/structure", "marginals")
        for name in ("mean", "std", "variance"):
            ctx.close(np.ravel(np.array([float(np.ravel(v)[0]) for v in getattr(X, name)()])),
                      [float(np.ravel(getattr(m, name)())[0]) for m in X1], sig + "/" + name)
        for name in ("support", "truncated_support"):
            for Z in (X, P):
                got = getattr(Z, name)()
                ctx.same(len(got), d, sig + "/" + name)
                for a, m in zip(got, X1):
                    ctx.same([float(v) for v in np.ravel(a)], [float(v) for v in np.ravel(getattr(m, name)())], sig + "/" + name)
        ctx.close(float(P.mass()), 1.0, "product/mass")
        ctx.same(bool(P.is_discrete()), all(disc), "product/is_discrete")
        ctx.check(P.random_vector() == X, "product/random_vector")
        ctx.check(tensap.ProductMeasure(X) == P and P == tensap.ProductMeasure(X), "product/from vector")
        Q = tensap.ProductMeasure([tensap.LebesgueMeasure(0, 2)] + [MARG[i]() for i in sel] + [tensap.DiscreteMeasure([0.0, 1.0, 2.0])])
        ctx.close(float(Q.mass()), 6.0, "product/mass")
        ctx.same(int(Q.ndim()), d + 2, "product/ndim")
        B = tensap.DiscreteMeasure(np.array([[0.0, 1.0], [2.0, 3.0], [1.0, 1.0]]))
        ctx.same(int(B.ndim()), 2, "discrete_measure/ndim")
        Q = tensap.ProductMeasure([B] + [MARG[i]() for i in sel])
        ctx.same(int(Q.ndim()), d + 2, "product/ndim", "with a measure on the plane")
    xl = [x[:, k].copy() for k in range(d)]
    with ctx.op("cdf", pure=[X, x], sig=sig + "/cdf"):
        w = np.prod([np.ravel(m.cdf(x[:, k])) for k, m in enumerate(X1)], 0)
        ctx.close(np.ravel(X.cdf(x)), w, sig + "/cdf")
        ctx.close(np.ravel(X.cdf(xl)), w, sig + "/cdf")
        ctx.close(np.ravel(X.cdf(x[0])), w[:1], sig + "/cdf")
    if not any(disc):
        with ctx.op("pdf", pure=[X, x], sig=sig + "/pdf"):
            w = np.prod([np.ravel(m.pdf(x[:, k])) for k, m in enumerate(X1)], 0)
            ctx.close(np.ravel(X.pdf(x)), w, sig + "/pdf")
            ctx.close(np.ravel(X.pdf(xl)), w, sig + "/pdf")
            ctx.close(np.ravel(X.pdf(x[0])), w[:1], sig + "/pdf")
        for n in (2, [2 + k % 2 for k in range(d)], 0.2, 0.05, 0.3):
            nn = n if np.ndim(n) else [n] * d if n >= 1 else [int(np.ceil(n ** (-1 / d)))] * d
            with ctx.op("iso_probabilistic_grid", n, pure=[X], sig=sig + "/iso_probabilistic_grid"):
                g = X.iso_probabilistic_grid(n)
                ctx.same([int(v) for v in g.shape], [k + 1 for k in nn], sig + "/iso_probabilistic_grid")
                for k in range(d):
                    ctx.same([round(float(v), 9) for v in np.ravel(g.grids[k])],
                             [round(float(v), 9) for v in np.ravel(X1[k].iso_probabilistic_grid(nn[k]))], sig + "/iso_probabilistic_grid")
    for Y in (N(0, 1), tensap.RandomVector([U(k, k + 2) for k in range(d)])):
        Yk = [Y] * d if not isinstance(Y, tensap.RandomVector) else list(Y.random_variables)
        with ctx.op("transfer", Y, pure=[X, Y, x], sig=sig + "/transfer"):
            w = np.column_stack([np.ravel(m.transfer(Yk[k], x[:, k])) for k, m in enumerate(X1)])
            ctx.close(X.transfer(Y, x), w, sig + "/transfer")
            ctx.close(X.transfer(Y, xl), w, sig + "/transfer")
    for r in range(1, d + 1):
        for ind in itertools.permutations(range(d), r):
            for a in (list(ind), np.array(ind)) + ((ind[0],) if r == 1 else ()):
                with ctx.op("marginal", ind, pure=[X, P], sig=sig + "/marginal"):
                    w = tensap.RandomVector([MARG[sel[i]]() for i in ind])
                    Z = X.marginal(a)
                    ctx.check(isinstance(Z, tensap.RandomVector) and Z == w, sig + "/marginal", "vector")
                if np.ndim(a):
                    with ctx.op("product.marginal", ind, pure=[P], sig="product/marginal"):
                        Z = P.marginal(a)
                        ctx.check(isinstance(Z, tensap.ProductMeasure) and len(Z.measures) == r and
                                  all(s == t for s, t in zip(Z.measures, w.random_variables)), "product/marginal")
                if r == d and np.ndim(a):
                    with ctx.op("transpose", ind, pure=[X], sig=sig + "/transpose"):
                        ctx.check(X.transpose(a) == w, sig + "/transpose")
    cnt = [0]

    def stream(s):
        cnt[0] += 1
        return (np.arange(int(np.prod(s))).reshape(s) + cnt[0]) / (np.prod(s) + d + 1.0)

    def choice(a, size=None, replace=True, p=None):
        cnt[0] += 1
        return (np.arange(int(size)) + cnt[0]) % a
    for Z, s in ((X, sig + "/random"), (P, "product/random")):
        for n in (1, 4):
            cnt[0] = 0
            with ctx.op("random", n, pure=[Z], sig=s), \
                    rng.patched(uniform=stream, normal=stream, choice=choice):
                g = Z.random(n)
                if cnt[0] == d:
                    w = []
                    for k in range(d):
                        m = X1[k]
                        t = (np.arange(n) + k + 1) / (n + d + 1.0)
                        w.append(m.inf + t * (m.sup - m.inf) if isinstance(m, U) else m.mu + m.sigma * t if isinstance(m, N)
                                 else np.ravel(m.values)[(np.arange(n) + k + 1) % 3])
                    ctx.close(g, np.column_stack(w), s)
    with ctx.op("duplicate", sig="product/duplicate"):
        Z = tensap.ProductMeasure.duplicate(X1[0], d)
        ctx.check(len(Z.measures) == d and all(m == X1[0] for m in Z.measures), "product/duplicate")
        Z = tensap.RandomVector(X1[0], d)
        ctx.check(int(Z.size) == d and all(m == X1[0] for m in Z.random_variables), "vector/order")
        Z = tensap.RandomVector(X)
        ctx.check(Z == X, "vector/copy")
    ctx.state(sig, tuple(sel))


class FGM(tensap.Copula):
    """joint distribution prod(u) (1 + theta prod(1 - u))"""

    def __init__(self, theta, column):
        self.theta, self.column = theta, column

    def pdf(self, u):
        out = 1 + self.theta * np.prod(1 - 2 * np.asarray(u), 1)
        return out.reshape(-1, 1) if self.column else out

    def cdf(self, u):
        return np.prod(u, 1) * (1 + self.theta * np.prod(1 - np.asarray(u), 1))


def run_joint(case, ctx):
    """vectors with a copula, standard vectors, polynomials and stratified samples"""
    sel = case["sel"]
    d = len(sel)
    M = [MARG[i]() for i in sel]
    disc = [i == 3 for i in sel]
    X = tensap.RandomVector([MARG[i]() for i in sel])
    S = X.get_standard_random_vector()
    q = np.array([[0.1 + 0.2 * ((r + k) % 4) for k in range(d)] for r in range(5)])
    x = np.column_stack([np.ravel(M[k].icdf(q[:, k])) for k in range(d)])
    with ctx.op("get_standard_random_vector", pure=[X], sig="vector/standard"):
        S = X.get_standard_random_vector()
        ctx.check(isinstance(S, tensap.RandomVector) and int(S.size) == d, "vector/standard", "size")
        for m, s, dd in zip(M, S.random_variables, disc):
            ctx.check(s == m.get_standard_random_variable(), "vector/standard", "marginal")
            if not dd:
                ctx.close([float(np.ravel(s.mean())[0])] + ([float(np.ravel(s.std())[0])] if isinstance(m, N) else np.ravel(s.support()).tolist()),
                          [0.0, 1.0] if isinstance(m, N) else [0.0, -1.0, 1.0], "vector/standard")
        if not any(disc):
            z = X.transfer(S, x)
            ctx.close(np.ravel(S.cdf(z)), np.ravel(X.cdf(x)), "vector/standard", msg="same quantiles")
    for theta in (-1.0, 0.5, 1.0):
        for col in (True, False):
            C = FGM(theta, col)
            Z = tensap.RandomVector([MARG[i]() for i in sel], copula=C)
            u = np.column_stack([np.ravel(m.cdf(x[:, k])) for k, m in enumerate(M)])
            for nm, V in (("given", Z), ("copy", tensap.RandomVector(Z)), ("standard", None)):
                with ctx.op("copula", theta, col, nm, pure=[Z, x], sig="vector/copula"):
                    y, f = x, lambda k: np.ravel(M[k].pdf(x[:, k]))
                    if nm == "standard":
                        if any(disc):
                            continue
                        V = Z.get_standard_random_vector()
                        y = Z.transfer(V, x)
                        f = lambda k, y=y: np.ravel(S.random_variables[k].pdf(y[:, k]))   # noqa
                    ctx.close(np.ravel(V.cdf(y)), np.prod(u, 1) * (1 + theta * np.prod(1 - u, 1)), "vector/copula", msg="cdf")
                    if not any(disc):
                        w = np.prod([f(k) for k in range(d)], 0) * (1 + theta * np.prod(1 - 2 * u, 1))
                        for g in (V.pdf(y), V.pdf([y[:, k].copy() for k in range(d)])):
                            ctx.close(np.ravel(g), w, "vector/copula", msg="pdf")
                ctx.state("copula", sel, theta, col, nm)
    t = np.array([[-0.7], [0.1], [0.8]])
    for a in (None, 2, [2 + k % 2 for k in range(d)]):
        with ctx.op("orthonormal_polynomials", a, pure=[X], sig="vector/orthonormal_polynomials"):
            P = X.orthonormal_polynomials() if a is None else X.orthonormal_polynomials(a)
            ctx.same(len(P), d, "vector/orthonormal_polynomials")
            for k in range(d):
                W = MARG[sel[k]]().orthonormal_polynomials()
                for j in range(3):
                    ctx.close(np.ravel(P[k].polyval([j], t)), np.ravel(W.polyval([j], t)), "vector/orthonormal_polynomials")
    n = 4
    G = np.array([[((5 * i + 3 * k) % n + 0.5) / n for k in range(d)] for i in range(n)])
    from scipy.stats import qmc
    calls = []

    class Stub:
        def __init__(self, d, *a, **k):
            calls.append(int(d))

        def random(self, n=1, *a, **k):
            calls.append(int(n))
            return G.copy()
    for nm in ("stub", "real"):
        with ctx.op("lhs_random", nm, pure=[X], sig="vector/lhs_random"):
            if nm == "stub":
                with mock.patch.object(qmc, "LatinHypercube", Stub):
                    g = np.asarray(X.lhs_random(n))
                if calls:
                    ctx.same(calls, [d, n], "vector/lhs_random")
                    ctx.close(g, np.column_stack([np.ravel(m.icdf(G[:, k])) for k, m in enumerate(M)]), "vector/lhs_random")
            else:
                g = np.asarray(X.lhs_random(n))
            ctx.same(g.shape, (n, d), "vector/lhs_random")
            for k in range(d):
                if not disc[k]:
                    ctx.same(sorted(np.floor(np.ravel(M[k].cdf(g[:, k])) * n).astype(int).tolist()), list(range(n)), "vector/lhs_random", "one point per stratum")
    ctx.trace()


def run_box(case, ctx):
    d = case["d"]
    B = np.array([[-1.0 + 0.5 * k for k in range(d)], [1.0 + k for k in range(d)]])
    vals = [[B[0, k] - 0.5, B[0, k], B[0, k] + 0.3, B[1, k], B[1, k] + 0.1] for k in range(d)]
    X = np.array(list(itertools.product(*vals)))
    want = np.all((X >= B[0]) & (X <= B[1]), 1)
    forms = [B, B.tolist()] + ([B[:, 0].copy(), B[:, 0].tolist()] if d == 1 else [])
    for b in forms:
        with ctx.op("is_in", pure=[B, X], sig="is_in"):
            ctx.same(np.ravel(tensap.is_in(b, X)).tolist(), want.tolist(), "is_in")
        for i in range(len(X)):
            with ctx.op("is_in", "one", sig="is_in"):
                ctx.same([bool(v) for v in np.ravel(tensap.is_in(b, X[i]))], [bool(want[i])], "is_in")
    ctx.trace()
    ctx.state("box", d)


def run_indices(case, ctx):
    """uniform distribution on a product of intervals of integers"""
    sh = case["sh"]
    d = len(sh)
    full = [np.arange(n) for n in sh]
    shift = [np.arange(n) * 2 + k for k, n in enumerate(sh)]
    for nm, arg, I in (("ints", list(sh), full), ("array", np.array(sh), full), ("intervals", shift, shift), ("lists", [s.tolist() for s in shift], shift)):
        keep = [np.array(a) for a in arg]
        with ctx.op("random_multi_indices", nm, pure=[arg], sig="random_multi_indices"):
            X = tensap.random_multi_indices(arg)
            ctx.same(int(X.size), d, "random_multi_indices")
            for m, i in zip(X.random_variables, I):
                ctx.same(np.ravel(m.values).tolist(), i.tolist(), "random_multi_indices")
                ctx.close(np.ravel(m.probabilities), np.ones(len(i)) / len(i), "random_multi_indices")
        ctx.check(all(np.array_equal(a, b) for a, b in zip(arg, keep)), "random_multi_indices", "argument changed")
        for t in range(8):
            with ctx.op("random", t, sig="random_multi_indices"):
                with rng.patched(uniform=lambda s: np.full(s, t / 8.0), choice=lambda a, size=None, replace=True, p=None: (np.arange(int(size or 1)) + t) % a):
                    g = np.asarray(X.random(3))
                ctx.same(g.shape, (3, d), "random_multi_indices")
                ctx.check(all(v in I[k] for k in range(d) for v in g[:, k]), "random_multi_indices", "out of the set")
    ctx.trace()
    ctx.state("indices", sh)
