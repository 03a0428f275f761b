"""Quadrature rules: Gauss rules of every measure, composite rules, tensor products of rules."""
import itertools
from math import comb

import numpy as np
import tensap

from .. import ref

ID = "P15"
BOUNDS = {
    "quick": "Gauss rules with 1..8 nodes for uniform, normal and Lebesgue measures over a parameter grid, for every discrete variable "
             "with up to 4 of the atoms {-2,0,0.5,3.25} in every order and weights in {1,2,3}, for four empirical variables; every monomial up to "
             "degree 2n-1; composite rules on every subset of 5 knots in two orders with 1..4 nodes per interval and every pattern of "
             "numbers of nodes; tensor products of up to 3 rules taken from 6, every pattern of numbers of nodes in {1,2,3}",
    "thorough": "as quick with 14 nodes and products of up to 4 rules",
}
U, N, L, D, E = (tensap.UniformRandomVariable, tensap.NormalRandomVariable, tensap.LebesgueMeasure,
                 tensap.DiscreteRandomVariable, tensap.EmpiricalRandomVariable)
ATOMS = (-2.0, 0.0, 0.5, 3.25)
SAMPLES = ([0.0, 1.0, 3.0], [2.0, -1.0, 0.5, 4.0, 4.5], [-1.0, 1.0], [-1.0, 0.3, 0.5, 2.0, 2.2, 5.0])
KNOTS = (-1.0, 0.0, 0.5, 2.0, 3.0)


def cases(tier):
    for a in (-1.0, 0.0, 2.5, -3):
        for w in (0.5, 1, 2, 7.0):
            yield {"kind": "gauss", "m": ["U", a, a + w]}
            yield {"kind": "gauss", "m": ["L", a, a + w]}
    for m in (-2, 0.0, 1.5):
        for s in (0.25, 1, 3.0):
            yield {"kind": "gauss", "m": ["N", m, s]}
    for n in (1, 2, 3, 4):
        for v in itertools.permutations(ATOMS, n):
            yield {"kind": "discrete", "v": list(v)}
    for i in range(len(SAMPLES)):
        yield {"kind": "gauss", "m": ["E", i]}
    for r in range(2, len(KNOTS) + 1):
        for kn in itertools.combinations(KNOTS, r):
            yield {"kind": "composite", "knots": list(kn)}
    for d in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for sel in itertools.product(range(6), repeat=d):
            if d == 4 and len(set(sel)) < 3:
                continue
            yield {"kind": "product", "sel": list(sel), "big": tier != "quick"}
    yield {"kind": "rule"}


def run(case, ctx):
    globals()["run_" + case["kind"]](case, ctx)


def dfact(k):
    return float(np.prod(np.arange(k - 1, 0, -2))) if k % 2 == 0 else 0.0


def make(m):
    """measure, center, scale, k -> exact integral of ((x-c)/s)^k, support"""
    if m[0] in "UL":
        a, b = m[1], m[2]
        c, s = (a + b) / 2, (b - a) / 2
        w = 1.0 if m[0] == "U" else b - a
        return (U if m[0] == "U" else L)(a, b), c, s, lambda k: w * (1 + (-1) ** k) / 2 / (k + 1), (a, b)
    if m[0] == "N":
        return N(m[1], m[2]), m[1], m[2], dfact, (-np.inf, np.inf)
    x = np.array(SAMPLES[m[1]])
    h = 3.5 * np.std(x) * len(x) ** (-1 / 3)
    c, s = np.mean(x), np.std(x)
    mom = lambda k: np.mean([sum(comb(k, j) * ((t - c) / s) ** (k - j) * (h / s) ** j * dfact(j) for j in range(k + 1))  # noqa
                             for t in x])
    return E(x), c, s, mom, (-np.inf, np.inf)


def gauss(ctx, X, n, c, s, mom, supp, sig, atoms=False):
    with ctx.op("gauss", n, pure=[X], sig=sig):
        G = X.gauss_integration_rule(n)
        p, w = np.ravel(G.points), np.ravel(G.weights)
        ctx.same((p.size, w.size), (n, n), sig, "number of nodes")
        ctx.check(np.all(np.isfinite(p)) and np.all(np.isreal(p)) and np.all(np.isreal(w)), sig, "nodes not real")
        ctx.check(np.all(w > 0), sig + "/weights", "weights not positive: %s" % w)
        ctx.close(np.sum(w), mom(0), sig + "/mass")
        e = 1e-9 * max(1.0, abs(supp[0]) if np.isfinite(supp[0]) else 1.0)
        ctx.check(np.min(p) >= supp[0] - e and np.max(p) <= supp[1] + e, sig + "/support", str(p))
        ctx.check(len(np.unique(np.round(p, 9))) == n, sig + "/distinct", str(p))
        for k in range(2 * n):
            big = float(np.sum(w * np.abs((p - c) / s) ** k))
            f = lambda x, k=k: ((x - c) / s) ** k   # noqa
            ctx.close(float(np.ravel(G.integrate(f))[0]), mom(k), sig + "/exactness", tol=1e-8, scale=max(1.0, big),
                      msg="degree %d with %d nodes:" % (k, n))
        H = tensap.IntegrationRule.gauss(X, n)
        ctx.close(H.points, G.points, sig + "/IntegrationRule.gauss")
        ctx.close(H.weights, G.weights, sig + "/IntegrationRule.gauss")
        ctx.state(sig, n, np.round(p, 8).tolist())


def run_gauss(case, ctx):
    X, c, s, mom, supp = make(case["m"])
    top = 8
    if case["m"][0] == "E":
        top = len(SAMPLES[case["m"][1]])
    for n in range(1, top + 1):
        ctx.trace()
        gauss(ctx, X, n, c, s, mom, supp, "gauss/" + case["m"][0])


def run_discrete(case, ctx):
    v = case["v"]
    n = len(v)
    for w in itertools.product((1, 2, 3), repeat=n):
        if n == 4 and sum(w) % 3:
            continue
        p = [x / sum(w) for x in w]
        X = D(v, list(w))
        ctx.trace()
        with ctx.step("weights %s" % (w,)):
            for k in range(1, n + 1):
                gauss(ctx, X, k, 0.0, 2.0, lambda j: sum(q * (a / 2.0) ** j for a, q in zip(v, p)), (min(v), max(v)), "gauss/D")


def run_composite(case, ctx):
    kn = case["knots"]
    m = len(kn) - 1
    pats = [1, 2, 3, 4] + [list(t) for t in itertools.product((1, 2, 3), repeat=m)]
    for n in pats:
        nn = [n] * m if np.ndim(n) == 0 else n
        for arg in (list(kn), np.array(kn[::-1])):
            ctx.trace()
            with ctx.op("gauss_legendre_composite", arg, n, pure=[arg, n], sig="composite"):
                G = tensap.IntegrationRule.gauss_legendre_composite(arg, n)
                p, w = np.ravel(G.points), np.ravel(G.weights)
                ctx.same(p.size, sum(nn), "composite", "number of nodes")
                ctx.close(np.sum(w), kn[-1] - kn[0], "composite/mass")
                ctx.check(np.all(w > 0), "composite/weights")
                for i in range(m):
                    a, b = kn[i], kn[i + 1]
                    ins = (p > a) & (p < b)
                    ctx.same(int(np.sum(ins)), nn[i], "composite", "nodes in interval %d" % i)
                    for k in range(2 * nn[i]):
                        f = lambda x, k=k: np.where((x > a) & (x < b), x, 0.0) ** k * ((x > a) & (x < b))   # noqa
                        ctx.close(float(np.ravel(G.integrate(f))[0]), (b ** (k + 1) - a ** (k + 1)) / (k + 1), "composite/exactness",
                                  tol=1e-9, scale=50.0)
        ctx.state("composite", kn, nn)


RULES = [["U", -1.0, 1.0], ["L", 0.0, 2.0], ["N", 0.5, 2.0], ["U", 2.0, 5.0], ["L", -1.0, 0.5], ["N", 0.0, 1.0]]


def run_product(case, ctx):
    sel = case["sel"]
    d = len(sel)
    M = [make(RULES[i]) for i in sel]
    P = tensap.ProductMeasure([m[0] for m in M])
    pats = [1, 2, 3] + [list(t) for t in itertools.product((1, 2, 3), repeat=d)]
    if d >= 3 and not case["big"]:
        pats = [2] + [list(t) for t in itertools.product((1, 2, 3), repeat=d) if sum(t) % 3 == sum(sel) % 3]
    if d == 4:
        pats = [2, [1, 2, 3, 2], [3, 1, 2, 1]]
    for n in pats:
        nn = [n] * d if np.ndim(n) == 0 else n
        for a in ((n, np.array(n)) if np.ndim(n) else (n,)):
            ctx.trace()
            with ctx.op("gauss(product)", sel, a, pure=[P, a], sig="product"):
                G = P.gauss_integration_rule(a)
                check_product(ctx, G, [m[0].gauss_integration_rule(k) for m, k in zip(M, nn)], nn, "product")
        with ctx.op("gauss(product) exactness", sel, n, sig="product/exactness"):
            for ks in itertools.product(*[(0, 2 * k - 2, 2 * k - 1) for k in nn]):
                f = lambda x: np.prod([((x[:, j] - M[j][1]) / M[j][2]) ** ks[j] for j in range(d)], 0)   # noqa
                ctx.close(float(np.ravel(G.integrate(f))[0]), np.prod([M[j][3](ks[j]) for j in range(d)]), "product/exactness",
                          scale=max(1.0, float(np.ravel(G.integrate(lambda x: np.abs(f(x))))[0])))
        ctx.state("product", sel, nn)
    if d > 1 and len(set(sel)) == 1:
        g = M[0][0].gauss_integration_rule(3)
        with ctx.op("tensorize", d, pure=[g], sig="tensorize"):
            check_product(ctx, g.tensorize(d), [g] * d, [3] * d, "tensorize")
    if d <= 3:
        kn = [KNOTS[i % 3:i % 3 + 3] for i in range(d)]
        for n in (1, 2, [1, 2], [2, 1]):
            for arg in (list(kn), tuple(kn)):
                with ctx.op("composite(product)", arg, n, pure=[arg, n], sig="product/composite"):
                    G = tensap.FullTensorProductIntegrationRule.gauss_legendre_composite(arg, n)
                    check_product(ctx, G, [tensap.IntegrationRule.gauss_legendre_composite(k, n) for k in kn],
                                  [sum([n] * 2 if np.ndim(n) == 0 else n)] * d, "product/composite")


def check_product(ctx, G, rules, nn, sig):
    d = len(rules)
    ctx.check(isinstance(G, tensap.FullTensorProductIntegrationRule), sig, "type")
    ctx.same(int(G.ndim()), d, sig, "ndim")
    ctx.same([int(v) for v in G.points.shape], list(nn), sig, "shape")
    idx = [tuple(reversed(i)) for i in itertools.product(*[range(n) for n in reversed(nn)])]
    pts = np.array([[np.ravel(rules[k].points)[i[k]] for k in range(d)] for i in idx])
    w = np.array([np.prod([np.ravel(rules[k].weights)[i[k]] for k in range(d)]) for i in idx])
    got = np.reshape(G.points.array(), (len(idx), -1))
    gw = np.ravel(G.weights_on_grid())
    ctx.same(gw.size, len(idx), sig, "number of weights")
    # the pairing of points and weights is what matters, whatever the enumeration order
    order = lambda p: np.lexsort(np.round(p, 9).T[::-1])   # noqa
    ctx.close(got[order(got)], pts[order(pts)], sig + "/points")
    ctx.close(gw[order(got)], w[order(pts)], sig + "/weights")
    R = G.integration_rule()
    ctx.close(np.reshape(R.points, got.shape), got, sig + "/integration_rule")
    ctx.close(np.ravel(R.weights), gw, sig + "/integration_rule")
    f = lambda x: np.sin(np.reshape(x, (-1, d)) @ np.arange(1.0, d + 1)) + 2   # noqa
    for g in (f, lambda x: f(x).reshape(-1, 1)):
        ctx.close(float(np.ravel(G.integrate(g))[0]), float(f(pts) @ w), sig + "/integrate")
        ctx.close(float(np.ravel(R.integrate(g))[0]), float(f(pts) @ w), sig + "/integrate")


def run_rule(case, ctx):
    for n in range(1, 6):
        for d in (0, 1, 2, 3):
            p = ref.gen((n, d), n) if d else ref.gen((n,), n)
            for t in (0, 1, 2):
                w = ref.gen((n,), t + 7)
                ctx.trace()
                with ctx.op("IntegrationRule", n, d, t, pure=[p, w], sig="rule"):
                    R = tensap.IntegrationRule(p, w)
                    q = np.reshape(p, (n, -1))
                    f = lambda x: np.cos(np.reshape(x, (n, -1)).sum(1)) + np.reshape(x, (n, -1))[:, 0] ** 2   # noqa
                    want = sum(w[i] * (np.cos(q[i].sum()) + q[i, 0] ** 2) for i in range(n))
                    for g in (f, lambda x: f(x)[:, None]):
                        ctx.close(float(np.ravel(R.integrate(g))[0]), want, "rule/integrate")
                    ctx.same(int(R.ndim()), max(d, 1), "rule/ndim")
                    ctx.state(n, d, t)
    for s in itertools.product((1, 2, 3), repeat=2):
        P = [ref.gen((k,), i) for i, k in enumerate(s)]
        W = [ref.gen((k,), i + 5) for i, k in enumerate(s)]
        for arg in (list(P), tensap.FullTensorGrid(list(P))):
            with ctx.op("FullTensorProductIntegrationRule", s, pure=[arg, W], sig="rule/product"):
                G = tensap.FullTensorProductIntegrationRule(arg, W)
                check_product(ctx, G, [tensap.IntegrationRule(p, w) for p, w in zip(P, W)], list(s), "rule/product")
