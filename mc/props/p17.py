"""Univariate bases: values, derivatives, Gram matrices, means, products, orthonormalisation, sub-bases."""
import itertools

import numpy as np
import tensap

from .. import ref, rng
from . import p16

ID = "P17"
BOUNDS = {
    "quick": "polynomial bases over 10 families with every subset of the degrees 0..4 (and every permutation of up to 3 degrees), derivative orders "
             "0..5, all products of pairs of bases with degrees in {0,1,2}; piecewise polynomials on every subset of 5 knots with degrees in "
             "{0,1,2,3} per element; B-splines on every nondecreasing sequence of 3..7 knots in {0,1,2,4} up to degree 3 (multiplicity at most "
             "degree+1); dilated splines with base 2,3, degree 0..3, levels 0..2; sub-bases for 0/1/-1 and generic matrices; user-defined and "
             "nodal bases in dimension 1 and 2; evaluation at several points of each element",
    "thorough": "as quick with degrees 0..6, knots sequences up to length 8, levels 0..3",
}
U, N, L, D = tensap.UniformRandomVariable, tensap.NormalRandomVariable, tensap.LebesgueMeasure, tensap.DiscreteRandomVariable
FAM = [["U", -1, 1], ["U", 0, 1], ["U", 2.0, 5.0], ["L", -1, 1], ["L", 0.0, 3.0], ["N", 0, 1], ["N", 1.0, 2.0],
       ["D", [0.0, 1.0, 3.0, 4.0, 6.0], None], ["D", [1.0, -1.0, 0.5, 2.0, 3.0], [1, 2, 1, 3, 1]], ["C", 0.0, 1.0], ["C", -1.0, 2.0]]
GRID = (0.0, 0.5, 1.0, 2.5, 3.0)


def cases(tier):
    top = 4 if tier == "quick" else 6
    for m in FAM:
        t = min(top, 4) if m[0] == "D" else top
        for r in range(1, t + 2):
            for ind in itertools.combinations(range(t + 1), r):
                yield {"kind": "poly", "m": m, "ind": list(ind)}
        for r in (2, 3):
            for ind in itertools.permutations(range(4), r):
                if list(ind) != sorted(ind):
                    yield {"kind": "poly", "m": m, "ind": list(ind)}
        yield {"kind": "kron", "m": m}
    for r in range(2, len(GRID) + 1):
        for pts in itertools.combinations(GRID, r):
            yield {"kind": "piecewise", "pts": list(pts)}
    yield {"kind": "piecewise_constructors"}
    for n in range(2, 8 if tier == "quick" else 9):
        for kn in itertools.combinations_with_replacement((0.0, 1.0, 2.0, 4.0), n):
            if len(set(kn)) > 1:
                yield {"kind": "bspline", "knots": list(kn)}
    yield {"kind": "bspline_constructors"}
    for b in (2, 3):
        for m in (0, 1, 2, 3):
            yield {"kind": "dilated", "b": b, "m": m, "L": 2 if tier == "quick" else 3}
    for u in range(5):
        yield {"kind": "sub", "u": u}
    yield {"kind": "user"}
    yield {"kind": "delta"}


def run(case, ctx):
    globals()["run_" + case["kind"]](case, ctx)


def poly(m):
    if m[0] == "C":
        return tensap.CanonicalPolynomials(U(m[1], m[2])), ["U", m[1], m[2]]
    return p16.measure(m).orthonormal_polynomials(), m


class Fam:
    """reference functions of a family, with the sign convention of the code"""
    cache = {}

    def __init__(self, m, deg=8):
        P, q = poly(m)
        self.x, self.w = p16.quad(q)
        if m[0] == "C":
            self.R = p16.Mono()
        else:
            deg = min(deg, len(m[1]) - 1) if m[0] == "D" else deg
            self.R = p16.Ref(m, deg)
            t = self.R.c + self.R.s * 1.37
            for k in range(deg + 1):
                if float(np.ravel(P.polyval([k], np.array([t])))[0]) * float(self.R.val(k, t)) < 0:
                    self.R.C[k] *= -1
        a, b = float(np.min(self.x)), float(np.max(self.x))
        self.pts = a + (b - a) * np.array([0.02, 0.21, 0.5, 0.63, 0.97]) if m[0] != "N" else m[1] + m[2] * np.array([-2.0, -0.4, 0.0, 0.7, 2.1])

    def V(self, ind, x, n=0):
        return np.column_stack([self.R.val(k, x, n) for k in ind])


def fam(m):
    k = repr(m)
    if k not in Fam.cache:
        Fam.cache[k] = Fam(m)
    return Fam.cache[k]


def amp(*a):
    return max([1.0] + [float(np.max(np.abs(x))) for x in a if np.size(x)])


def run_poly(case, ctx):
    m, ind = case["m"], case["ind"]
    F = fam(m)
    P, q = poly(m)
    n = len(ind)
    x = F.pts
    sig = "polynomial"
    ctx.trace()
    for arg in (list(ind), np.array(ind)):
        with ctx.op("PolynomialFunctionalBasis", m, ind, pure=[P, arg], sig=sig):
            H = tensap.PolynomialFunctionalBasis(P, arg)
    O = [H]
    with ctx.op("eval", m, ind, pure=O, sig=sig + "/eval"):
        V = F.V(ind, x)
        ctx.same((int(H.cardinal()), int(H.ndim()), int(H.storage())), (n, 1, 0), sig + "/cardinal")
        for y in (x, x.reshape(-1, 1), list(x)):
            ctx.close(H.eval(y), V, sig + "/eval", scale=amp(V), tol=1e-8)
        ctx.same(bool(H.is_orthonormal), m[0] != "C", sig + "/is_orthonormal")
        ctx.close([float(v) for v in np.ravel(H.domain())][:0] or 0.0, 0.0, sig)
        ctx.same(np.array(H.adaptation_path()).astype(int).tolist(), np.triu(np.ones((n, n), dtype=int)).tolist(), sig + "/adaptation_path")
        ctx.check(H == tensap.PolynomialFunctionalBasis(poly(m)[0], list(ind)), sig + "/eq")
        if n > 1:
            ctx.check(not (H == tensap.PolynomialFunctionalBasis(P, list(ind)[:-1])), sig + "/eq")
    for k in range(0, 6):
        with ctx.op("eval_derivative", k, pure=O + [x], sig=sig + "/eval_derivative"):
            W = F.V(ind, x, k)
            ctx.close(H.eval_derivative(k, x), W, sig + "/eval_derivative", scale=amp(W), tol=1e-7)
    with ctx.op("eval_jacobian", pure=O, sig=sig + "/eval_jacobian"):
        W = F.V(ind, x, 1)
        ctx.close(H.eval_jacobian(x), W[:, :, None], sig + "/eval_jacobian", scale=amp(W), tol=1e-7)
    for mm in [None] + p16.OTHER[:5]:
        qx, qw = p16.quad(q if mm is None else mm)
        args = () if mm is None else (p16.measure(mm),)
        with ctx.op("gram_matrix/mean", mm, pure=O, sig=sig + "/gram"):
            V = F.V(ind, qx)
            G = V.T @ (qw[:, None] * V)
            ctx.close(H.gram_matrix(*args), G, sig + "/gram", scale=amp(G), tol=1e-7)
            mean = qw @ V / np.sum(qw)
            ctx.close(np.ravel(H.mean(*args)), mean, sig + "/mean", scale=amp(np.sum(qw[:, None] * np.abs(V), 0)), tol=1e-7)
            ctx.close(np.ravel(H.expectation()), F.w @ F.V(ind, F.x) / np.sum(F.w), sig + "/expectation",
                      scale=amp(np.sum(F.w[:, None] * np.abs(F.V(ind, F.x)), 0)), tol=1e-7)
    if 0 in ind:
        with ctx.op("one", pure=O, sig=sig + "/one"):
            ctx.close(H.eval(x) @ np.ravel(H.one()), np.ones(len(x)), sig + "/one")
    else:
        with ctx.op("one", pure=O, sig=sig + "/one"):
            try:
                c = H.one()
                ctx.close(H.eval(x) @ np.ravel(c), np.ones(len(x)), sig + "/one")
            except ValueError:
                pass
    # derivatives projected on the basis
    Vq = F.V(ind, F.x)
    G = Vq.T @ (F.w[:, None] * Vq)
    for k in (0, 1, 2, 3, max(ind) + 1):
        for how in ("derivative", "gradient", "hessian"):
            if how != "derivative" and k != {"gradient": 1, "hessian": 2}[how]:
                continue
            if m[0] == "D" and max(ind) > 3 and k == 0:
                continue
            with ctx.op(how, k, pure=O, sig=sig + "/derivative"):
                dH = H.derivative(k) if how == "derivative" else getattr(H, how)()
                W = F.V(ind, F.x, k)
                want = F.V(ind, x) @ np.linalg.solve(G, Vq.T @ (F.w[:, None] * W))
                ctx.close(dH.eval(x), want, sig + "/derivative", scale=amp(want, F.V(ind, x, k)), tol=1e-6)
    if m[0] in "UN" and ind == list(range(n)):
        nu = L(-1.0, 2.0) if m[0] == "U" else N(0.5, 1.0)
        for k in (1, 2):
            with ctx.op("derivative(measure)", k, pure=O + [nu], sig=sig + "/derivative(measure)"):
                want = F.V(ind, x, k)
                ctx.close(H.derivative(k, nu).eval(x), want, sig + "/derivative(measure)", scale=amp(want), tol=1e-6)
    with ctx.op("orthonormalize", sig=sig + "/orthonormalize"):
        B = H.orthonormalize()
        V = B.eval(F.x)
        ctx.close(V.T @ (F.w[:, None] * V), np.eye(n), sig + "/orthonormalize", tol=1e-6)
        ctx.check(bool(B.is_orthonormal), sig + "/orthonormalize", "flag")
        C, res = np.linalg.lstsq(Vq * np.sqrt(F.w)[:, None], V * np.sqrt(F.w)[:, None], rcond=None)[:2]
        ctx.close(Vq @ C, V, sig + "/orthonormalize/span", scale=amp(V), tol=1e-6)
    if m[0] in "UN":
        with ctx.op("random", pure=O, sig=sig + "/random"):
            src = lambda s: (np.arange(int(np.prod(s))).reshape(s) + 1.0) / (np.prod(s) + 1.0)   # noqa
            with rng.patched(uniform=src, normal=src):
                for nn in (1, 3):
                    v, y = H.random(nn)
                    ctx.same(np.shape(v), (nn, n), sig + "/random")
                    ctx.close(v, F.V(ind, np.ravel(y)), sig + "/random", scale=amp(v), tol=1e-7)
    ctx.state(sig, m, ind)


def run_kron(case, ctx):
    m = case["m"]
    F = fam(m)
    P, q = poly(m)
    subs = [list(s) for r in (1, 2, 3) for s in itertools.permutations((0, 1, 2), r)]
    x = F.pts
    for a in subs:
        for b in subs:
            if len(a) + len(b) == 6 and sum(a[:2]) != sum(b[1:]):
                continue
            A, B = tensap.PolynomialFunctionalBasis(P, a), tensap.PolynomialFunctionalBasis(P, b)
            ctx.trace()
            with ctx.op("kron", a, b, pure=[A, B], sig="polynomial/kron"):
                K = A.kron(B)
                Va, Vb = F.V(a, x), F.V(b, x)
                want = np.column_stack([Va[:, i] * Vb[:, j] for i in range(len(a)) for j in range(len(b))])
                ctx.close(K.eval(x), want, "polynomial/kron", scale=amp(want), tol=1e-6)
                ctx.same(int(K.cardinal()), len(a) * len(b), "polynomial/kron")
                ctx.state("kron", m, a, b)


LEG = [np.polynomial.legendre.Legendre.basis(k) * np.sqrt(2 * k + 1) for k in range(8)]


def piece(pts, p, x, n=0):
    """value and n-th derivative of the basis at points strictly inside the elements"""
    cols = []
    for i, d in enumerate(p):
        a, h = pts[i], pts[i + 1] - pts[i]
        ins = (x > a) & (x < pts[i + 1])
        for k in range(d + 1):
            f = LEG[k].deriv(n) if n else LEG[k]
            cols.append(np.where(ins, f(2 * (x - a) / h - 1) * (2 / h) ** n / np.sqrt(h), 0.0))
    return np.column_stack(cols)


def inside(pts):
    return np.concatenate([a + (b - a) * np.array([0.01, 0.2, 0.5, 0.9]) for a, b in zip(pts[:-1], pts[1:])])


def run_piecewise(case, ctx):
    pts = case["pts"]
    m = len(pts) - 1
    pats = list(itertools.product((0, 1, 2, 3), repeat=m))
    if m == 4:
        pats = [p for p in pats if (p[0] + 2 * p[1] + p[2] * 3 + p[3]) % 5 == 0]
    for p in pats:
        args = [list(p), np.array(p)] + ([p[0]] if len(set(p)) == 1 else [])
        for a in args[:: 1 if len(set(p)) == 1 else 2] if m > 2 else args:
            ctx.trace()
            with ctx.op("PiecewisePolynomialFunctionalBasis", pts, a, pure=[a], sig="piecewise/construct"):
                H = tensap.PiecewisePolynomialFunctionalBasis(list(pts), a)
                one_piecewise(ctx, H, np.array(pts), p, "piecewise")


def one_piecewise(ctx, H, pts, p, sig, light=False):
    n = sum(k + 1 for k in p)
    x = inside(pts)
    with ctx.op("attributes", pure=[H], sig=sig + "/attributes"):
        ctx.same((int(H.cardinal()), int(H.ndim())), (n, 1), sig + "/cardinal")
        ctx.close(np.ravel(H.domain()), [pts[0], pts[-1]], sig + "/domain")
        ctx.check(bool(H.is_orthonormal), sig + "/is_orthonormal")
        el = np.concatenate([[i] * 4 for i in range(len(p))])
        ctx.same([int(i) for i in H.element_number(x)], [int(i) for i in el], sig + "/element_number")
    V = piece(pts, p, x)
    with ctx.op("eval", pure=[H, x], sig=sig + "/eval"):
        for y in (x, x[::-1]) if not light else (x,):
            ctx.close(H.eval(y), piece(pts, p, y), sig + "/eval", scale=amp(V))
        for ind in ([0], [n - 1, 0], list(range(n))[::-1]):
            ctx.close(H.eval(x, ind), V[:, ind], sig + "/eval", scale=amp(V))
    for k in (1, 2, 3, 4) if not light else (1,):
        with ctx.op("eval_derivative", k, pure=[H, x], sig=sig + "/eval_derivative"):
            W = piece(pts, p, x, k)
            ctx.close(H.eval_derivative(k, x), W, sig + "/eval_derivative", scale=amp(W), tol=1e-8)
            ctx.close(H.eval_derivative(k, x, [n - 1]), W[:, [n - 1]], sig + "/eval_derivative", scale=amp(W), tol=1e-8)
    with ctx.op("gram_matrix", pure=[H], sig=sig + "/gram"):
        G = tensap.IntegrationRule.gauss_legendre_composite(pts, int(max(p)) + 1)
        ctx.close(H.gram_matrix(G), np.eye(n), sig + "/gram", tol=1e-8)
    with ctx.op("mean", pure=[H], sig=sig + "/mean"):
        w = np.zeros(n)
        w[np.cumsum([0] + [k + 1 for k in p[:-1]])] = np.sqrt(np.diff(pts))
        got = np.ravel(H.mean())
        # with a measure of mass different from one, integral and mean value are both admitted
        if np.allclose(got, w / (pts[-1] - pts[0])):
            w = w / (pts[-1] - pts[0])
        ctx.close(got, w, sig + "/mean")
    with ctx.op("interpolation_points", pure=[H], sig=sig + "/interpolation_points"):
        y = np.ravel(H.interpolation_points())
        ctx.same(y.size, n, sig + "/interpolation_points")
        for i in range(len(p)):
            ctx.same(int(np.sum((y > pts[i]) & (y < pts[i + 1]))), p[i] + 1, sig + "/interpolation_points", "points in element")
        ctx.check(np.linalg.matrix_rank(H.eval(y)) == n, sig + "/interpolation_points", "not unisolvent")
    ctx.state(sig, pts.tolist(), p)


def run_piecewise_constructors(case, ctx):
    P = tensap.PiecewisePolynomialFunctionalBasis
    for a, b in ((0.0, 1.0), (-1.0, 2.0)):
        for p in (0, 1, 3):
            for n in (1, 2, 3, 5):
                ctx.trace()
                with ctx.op("np", a, b, n, p, sig="piecewise/np"):
                    H = P.np(a, b, n, p)
                    one_piecewise(ctx, H, np.linspace(a, b, n + 1), (p,) * n, "piecewise/np")
            for h in (1.0, 0.5, 0.3, 0.4):
                with ctx.op("hp", a, b, h, p, sig="piecewise/hp"):
                    H = P.hp(a, b, h, p)
                    n = len(H.points) - 1
                    ctx.check(np.max(np.diff(H.points)) <= h * (1 + 1e-12), "piecewise/hp", "mesh size exceeds h")
                    one_piecewise(ctx, H, np.linspace(a, b, n + 1), (p,) * n, "piecewise/hp")
        for s in (a, b, (a + b) / 2, [a, b], [a, (a + b) / 2], [(a + b) / 2, b], [a + 0.25, a + 0.75], [a, a + 0.5, b], [a + 0.75, a + 0.25]):
            for h in (0.5, 0.25, 0.1):
                ctx.trace()
                with ctx.op("singularityhp_adapted", a, b, s, h, pure=[s], sig="piecewise/singularity"):
                    H = P.singularityhp_adapted(a, b, s, h)
                    pts, p = np.ravel(H.points), [int(k) for k in H.p]
                    ctx.same(len(p), len(pts) - 1, "piecewise/singularity", "degrees and elements")
                    ctx.close([pts[0], pts[-1]], [a, b], "piecewise/singularity")
                    ctx.check(np.all(np.diff(pts) > 0), "piecewise/singularity", "knots not increasing")
                    e = np.unique(np.concatenate(([a, b], np.ravel(s))))
                    ctx.check(all(np.min(np.abs(pts - t)) < 1e-12 for t in e), "piecewise/singularity", "singularities are knots")
                    for t in np.ravel(s):
                        for side in (1, -1):
                            q = [j for j in range(len(p)) if (abs(pts[j] - t) < 1e-12 if side > 0 else abs(pts[j + 1] - t) < 1e-12)]
                            # elements touching a singularity are the smallest ones, of degree zero
                            for j in q:
                                ctx.same(p[j], 0, "piecewise/singularity", "degree next to a singularity")
                                el = [c for c in zip(e[:-1], e[1:]) if c[0] <= pts[j] + 1e-12 and pts[j + 1] <= c[1] + 1e-12][0]
                                ctx.check(pts[j + 1] - pts[j] <= h * (el[1] - el[0]) * (1 + 1e-9), "piecewise/singularity", "mesh size")
                    one_piecewise(ctx, H, pts, tuple(p), "piecewise/singularity", light=True)


def splines(t, k, x, n=0):
    """B-splines by the Cox - de Boor recursion on polynomial pieces, at points strictly inside the knot spans"""
    t = np.asarray(t, dtype=float)
    out = np.zeros((len(x), len(t) - 1 - k))
    for s in range(len(t) - 1):
        if t[s + 1] <= t[s]:
            continue
        ins = (x > t[s]) & (x < t[s + 1])
        B = [np.poly1d([1.0]) if i == s else np.poly1d([0.0]) for i in range(len(t) - 1)]
        for j in range(1, k + 1):
            C = []
            for i in range(len(t) - 1 - j):
                a = np.poly1d([1.0, -t[i]]) / (t[i + j] - t[i]) * B[i] if t[i + j] > t[i] else np.poly1d([0.0])
                b = np.poly1d([-1.0, t[i + j + 1]]) / (t[i + j + 1] - t[i + 1]) * B[i + 1] if t[i + j + 1] > t[i + 1] else np.poly1d([0.0])
                C.append(a + b)
            B = C
        for i in range(out.shape[1]):
            f = B[i].deriv(n) if n else B[i]
            out[ins, i] = f(x[ins])
    return out


def run_bspline(case, ctx):
    t = case["knots"]
    top = min(3, len(t) - 2)
    for k in range(0, top + 1):
        if max(t.count(v) for v in t) > k + 1:
            continue
        ctx.trace()
        with ctx.step("degree %d" % k):
            H = None
            with ctx.op("BSplinesFunctionalBasis", t, k, pure=[t], sig="bspline/construct"):
                H = tensap.BSplinesFunctionalBasis(list(t), k)
            if H is not None:
                one_bspline(ctx, H, t, k, "bspline", (t[0], t[-1]))


def one_bspline(ctx, H, t, k, sig, dom):
    spans = sorted(set(t))
    x = inside(spans)
    n = len(t) - 1 - k
    with ctx.op("attributes", pure=[H], sig=sig + "/attributes"):
        ctx.same((int(H.cardinal()), int(H.ndim())), (n, 1), sig + "/cardinal")
        ctx.close(np.ravel(H.domain()), dom, sig + "/domain")
        ctx.check(not H.is_orthonormal, sig + "/is_orthonormal")
    V = splines(t, k, x)
    with ctx.op("eval", pure=[H, x], sig=sig + "/eval"):
        ctx.close(H.eval(x), V, sig + "/eval")
        ctx.close(H.eval(np.array([t[0] - 1.0, t[-1] + 0.5])), np.zeros((2, n)), sig + "/eval", msg="outside:")
        ctx.close(H.eval(x.reshape(-1, 1)), V, sig + "/eval")
    for j in range(0, k + 2):
        with ctx.op("eval_derivative", j, pure=[H, x], sig=sig + "/eval_derivative"):
            W = splines(t, k, x, j)
            ctx.close(H.eval_derivative(j, x), W, sig + "/eval_derivative", scale=amp(W))
    # interior simple knots: the splines of positive degree are continuous there
    for v in spans:
        if k >= 1 and t.count(v) <= k:
            with ctx.op("eval at knots", v, pure=[H], sig=sig + "/knots"):
                e = 1e-9
                lim = H.eval(np.array([v - e, v + e]))
                ctx.close(H.eval(np.array([v]))[0], (lim[0] + lim[1]) / 2, sig + "/knots", tol=1e-6)
    with ctx.op("gram_matrix", pure=[H], sig=sig + "/gram"):
        G = tensap.IntegrationRule.gauss_legendre_composite(spans, k + 1)
        q, w = np.ravel(G.points), np.ravel(G.weights)
        W = splines(t, k, q)
        ctx.close(H.gram_matrix(G), W.T @ (w[:, None] * W), sig + "/gram")
    ctx.state(sig, t, k)


def run_bspline_constructors(case, ctx):
    B = tensap.BSplinesFunctionalBasis
    for m in range(5):
        ctx.trace()
        with ctx.op("cardinal_bspline", m, sig="bspline/cardinal"):
            H = B.cardinal_bspline(m)
            ctx.same(int(H.cardinal()), 1, "bspline/cardinal")
            one_bspline(ctx, H, [float(k) for k in range(m + 2)], m, "bspline/cardinal", (0, m + 1))
        for t in ([0.0, 1.0], [0.0, 0.5, 1.0], [0.0, 1.0, 3.0, 3.5]):
            with ctx.op("with_extra_knots", t, m, pure=[t], sig="bspline/extra"):
                H = B.with_extra_knots(t, m)
                k = [t[0] + (t[1] - t[0]) * i for i in range(-m, 0)] + t + [t[-1] + (t[-1] - t[-2]) * i for i in range(1, m + 1)]
                one_bspline(ctx, H, k, m, "bspline/extra", (t[0], t[-1]))
                x = inside(t)
                ctx.close(H.eval(x).sum(1), np.ones(len(x)), "bspline/extra/unity")
                ctx.same(int(H.cardinal()), len(t) - 1 + m, "bspline/extra")


def dil(b, m, lv, j, x, n=0):
    y = b ** lv * x - j
    t = list(range(m + 2))
    good = np.isclose(y, np.round(y))
    out = splines(t, m, y, n)[:, 0] * float(b) ** (lv * (n + 0.5))
    return np.where(good, np.nan, out)


def run_dilated(case, ctx):
    b, m, top = case["b"], case["m"], case["L"]
    x = np.array([0.013, 0.11, 0.21, 0.37, 0.52, 0.68, 0.81, 0.95])
    Bs = tensap.DilatedBSplines(m, b)
    sig = "dilated"
    ctx.trace()
    for lv in range(top + 1):
        with ctx.op("indices", lv, pure=[Bs], sig=sig + "/indices"):
            l, j = Bs.indices_with_level(lv)
            # every dilated and translated spline of this level whose support meets (0,1)
            ctx.same([(int(a), int(c)) for a, c in zip(l, j)], [(lv, c) for c in range(-m, b ** lv)], sig + "/indices")
            l, j = Bs.indices_with_level_bounded_by(lv)
            ctx.same([(int(a), int(c)) for a, c in zip(l, j)], [(a, c) for a in range(lv + 1) for c in range(-m, b ** a)], sig + "/indices")
        with ctx.op("with_level_bounded_by", lv, sig=sig + "/basis"):
            H = tensap.DilatedBSplinesFunctionalBasis.with_level_bounded_by(m, b, lv)
            ind = [(a, c) for a in range(lv + 1) for c in range(-m, b ** a)]
            ctx.same((int(H.cardinal()), int(H.ndim())), (len(ind), 1), sig + "/cardinal")
            for n in range(m + 2):
                W = np.column_stack([dil(b, m, a, c, x, n) for a, c in ind])
                got = H.eval(x) if n == 0 else H.eval_derivative(n, x)
                ctx.close(got, W, sig + ("/eval" if n == 0 else "/eval_derivative"), scale=amp(W))
    every = [(a, c) for a in range(2) for c in range(-m, b ** a)]
    for r in (1, 2, 3):
        for sel in itertools.permutations(every, r) if r < 3 else itertools.combinations(every, 3):
            for wrap in (list, tuple):
                I = wrap([np.array([s[0] for s in sel]), np.array([s[1] for s in sel])])
                J = wrap([[s[0] for s in sel], [s[1] for s in sel]])
                for A in (I, J):
                    with ctx.op("DilatedBSplinesFunctionalBasis", sel, pure=[A, Bs], sig=sig + "/selection"):
                        H = tensap.DilatedBSplinesFunctionalBasis(Bs, A)
                        W = np.column_stack([dil(b, m, a, c, x) for a, c in sel])
                        ctx.close(H.eval(x), W, sig + "/selection", scale=amp(W))
                        ctx.close(Bs.eval(A, x), W, sig + "/selection", scale=amp(W))
                        ctx.same(int(H.cardinal()), r, sig + "/selection")
                if r == 3:
                    break
            ctx.state(sig, b, m, sel)


def run_sub(case, ctx):
    u = case["u"]
    mk = [lambda: tensap.PolynomialFunctionalBasis(U(-1, 1).orthonormal_polynomials(), [0, 1, 2]),
          lambda: tensap.PolynomialFunctionalBasis(tensap.CanonicalPolynomials(U(0, 1)), [0, 1, 2]),
          lambda: tensap.PiecewisePolynomialFunctionalBasis([0.0, 1.0, 2.0], [0, 1]),
          lambda: tensap.BSplinesFunctionalBasis([0.0, 1.0, 2.0, 4.0, 5.0], 1),
          lambda: tensap.SubFunctionalBasis(tensap.PolynomialFunctionalBasis(N(1, 2).orthonormal_polynomials(), [0, 1, 3]),
                                            np.array([[1.0, 0, 1], [0, 2, 0], [1, 1, -1]]))][u]
    H = mk()
    x = np.array([0.11, 0.43, 0.77, 1.3, 1.9]) if u != 0 else np.array([-0.9, -0.3, 0.2, 0.8])
    V = H.eval(x)
    mats = [np.array(c, dtype=float).reshape(3, -1) for r in (1, 2) for c in itertools.product((-1, 0, 1), repeat=3 * r)
            if r == 1 or sum(abs(a) for a in c) in (2, 3)]
    mats += [np.eye(3), np.eye(3)[:, [2, 0]], np.eye(3)[:, [1, 2, 0]], ref.gen((3, 1), 1), ref.gen((3, 2), 2), ref.gen((3, 3), 3),
             np.linalg.qr(ref.gen((3, 3), 4))[0], np.linalg.qr(ref.gen((3, 2), 5))[0]]
    sig = "sub"
    mean = np.ravel(H.mean()) if u not in (3,) else None
    G = np.array(H.gram_matrix()) if u in (0, 1, 4) else None
    for A in mats:
        n = A.shape[1]
        B = None
        ctx.trace()
        with ctx.op("SubFunctionalBasis", A.tolist(), pure=[H, A], sig=sig + "/construct"):
            B = tensap.SubFunctionalBasis(H, A)
            ctx.same((int(B.cardinal()), int(B.ndim()), int(B.storage())), (n, 1, 3 * n), sig + "/cardinal")
            ctx.close(np.ravel(B.domain()), np.ravel(H.domain()), sig + "/domain") if u in (0, 2, 3) else None
            if B.is_orthonormal:
                ctx.check(H.is_orthonormal and np.allclose(A.T @ A, np.eye(n)), sig + "/is_orthonormal")
            if np.array_equal(A, np.eye(3)) or np.array_equal(A, np.eye(3)[:, [1, 2, 0]]):
                ctx.same(bool(B.is_orthonormal), bool(H.is_orthonormal), sig + "/is_orthonormal")
        if B is None:
            continue
        O = [H, B, x]
        with ctx.op("eval", A.tolist(), pure=O, sig=sig + "/eval"):
            ctx.close(B.eval(x), V @ A, sig + "/eval")
            for ind in ([0], [n - 1], list(range(n))[::-1]):
                ctx.close(B.eval(x, ind), (V @ A)[:, ind], sig + "/eval")
        for k in (1, 2):
            with ctx.op("eval_derivative", k, pure=O, sig=sig + "/eval_derivative"):
                ctx.close(B.eval_derivative(k, x), H.eval_derivative(k, x) @ A, sig + "/eval_derivative")
            if u in (0, 1):
                with ctx.op("derivative", k, pure=O, sig=sig + "/derivative"):
                    dB = B.derivative(k)
                    ctx.close(dB.eval(x), H.eval_derivative(k, x) @ A, sig + "/derivative", tol=1e-7)
                    ctx.same(int(dB.cardinal()), n, sig + "/derivative")
        with ctx.op("eval_jacobian", pure=O, sig=sig + "/eval_jacobian"):
            ctx.close(B.eval_jacobian(x), (H.eval_derivative(1, x) @ A)[:, :, None], sig + "/eval_jacobian")
        if mean is not None:
            with ctx.op("mean", pure=O, sig=sig + "/mean"):
                ctx.close(np.ravel(B.mean()), mean @ A, sig + "/mean")
        if G is not None:
            with ctx.op("gram_matrix", pure=O, sig=sig + "/gram"):
                ctx.close(B.gram_matrix(), A.T @ G @ A, sig + "/gram")
            if u == 0 and np.linalg.matrix_rank(A) == n:
                with ctx.op("orthonormalize", pure=O, sig=sig + "/orthonormalize"):
                    C = B.orthonormalize()
                    ctx.close(C.gram_matrix(), np.eye(n), sig + "/orthonormalize")
                    ctx.check(bool(C.is_orthonormal), sig + "/orthonormalize", "flag")
                    W = C.eval(x)
                    ctx.same(int(np.linalg.matrix_rank(np.column_stack([V @ A, W]), tol=1e-9)), n, sig + "/orthonormalize", "span")
        ctx.state(sig, u, A.tolist())


def run_user(case, ctx):
    F1 = [lambda x: np.ones(np.shape(x)[0]), lambda x: np.ravel(x) ** 2, lambda x: np.cos(x), lambda x: np.sin(x).reshape(-1, 1)]
    F2 = [lambda x: x[:, 0], lambda x: x[:, 1] ** 2, lambda x: x[:, 0] * x[:, 1], lambda x: (x[:, :1] - x[:, 1:])]
    for d, F in ((1, F1), (2, F2)):
        for r in (1, 2, 3, 4):
            for sel in itertools.permutations(range(4), r):
                h = [F[i] for i in sel]
                for kw in ({"input_dim": d}, {"measure": U(0, 1) if d == 1 else tensap.RandomVector(U(0, 1), 2)}) + (({},) if d == 1 else ()):
                    ctx.trace()
                    with ctx.op("UserDefinedFunctionalBasis", d, sel, sorted(kw), pure=[h], sig="user"):
                        H = tensap.UserDefinedFunctionalBasis(h, **kw)
                        ctx.same((int(H.cardinal()), int(H.ndim())), (r, d), "user/cardinal")
                        ctx.check(not H.is_orthonormal, "user/is_orthonormal")
                        for n in (1, 3):
                            x = ref.gen((n, d), n)
                            for y in (x, x[:, 0]) if d == 1 else (x,):
                                ctx.close(H.eval(y), np.column_stack([np.ravel(f(y)) for f in h]), "user/eval")
                        if "measure" in kw:
                            ctx.same(repr(np.array(H.domain()).tolist()), repr(np.array(kw["measure"].support()).tolist()), "user/domain")
                            G = U(0, 1).gauss_integration_rule(3)
                            if d == 1:
                                V = np.column_stack([np.ravel(f(G.points)) for f in h])
                                ctx.close(H.gram_matrix(G), V.T @ (G.weights[:, None] * V), "user/gram")
                        ctx.state("user", d, sel)


def run_delta(case, ctx):
    V1, V2 = [0.0, 1.0, 2.5, -1.0], [(0.0, 0.0), (0.0, 1.0), (1.0, 0.0), (1.0, 1.0)]
    for d, V in ((1, V1), (2, V2)):
        for r in (1, 2, 3, 4):
            for sel in itertools.permutations(V, r):
                a = list(sel) if d == 1 else np.array(sel)
                for arg in (a, np.array(a).reshape(r, d)):
                    ctx.trace()
                    with ctx.op("DeltaFunctionalBasis", d, sel, pure=[arg], sig="delta"):
                        H = tensap.DeltaFunctionalBasis(arg)
                        ctx.same(int(H.cardinal()), r, "delta/cardinal")
                        ctx.same(int(H.ndim()), d, "delta/ndim")
                        x = np.array(V + [V[0]] if d == 1 else V + [V[0], (0.5, 1.0)], dtype=float)
                        w = np.array([[float(np.all(np.ravel(p) == np.ravel(q))) for q in sel] for p in x])
                        ctx.close(H.eval(x), w, "delta/eval")
                        if d == 1:
                            ctx.close(H.eval(x.reshape(-1, 1)), w, "delta/eval")
                        s = np.reshape(np.array(sel, dtype=float), (r, d))
                        ctx.close(np.array(H.domain()), np.vstack((s.min(0), s.max(0))), "delta/domain")
                        ctx.close(float(H.measure.mass()), float(r), "delta/measure")
                        ctx.state("delta", d, sel)
    for mu in (D([0.0, 1.0, 2.5]), tensap.DiscreteMeasure([0.0, 1.0, 2.5], [1.0, 2.0, 1.0])):
        with ctx.op("DeltaFunctionalBasis(measure)", pure=[mu], sig="delta/measure"):
            H = tensap.DeltaFunctionalBasis([0.0, 2.5], mu)
            ctx.check(H.measure == mu, "delta/measure")
            ctx.same((int(H.cardinal()), int(H.ndim())), (2, 1), "delta/measure")
            ctx.close(H.eval(np.array([0.0, 1.0, 2.5])), [[1, 0], [0, 0], [0, 1]], "delta/eval")
