"""Functions given by coefficients on a basis: values, moments, conditional expectations, against exact quadrature of explicit sums."""
import itertools

import numpy as np
import tensap

from .. import ref, rng
from . import p16
from .p18 import D, MK, N, POINTS, U, amp, box, colprod, ev, mk, pts

ID = "P19"
BOUNDS = {
    "quick": "univariate, full tensor-product and sparse tensor-product bases (3 index sets, one reversed) over 17 lists of 1..3 factors (polynomial, shifted, "
             "discrete, non-orthonormal, sub-bases, piecewise); scalar, vector (2 outputs) and matrix (2x3) values; every unit coefficient array of scalar "
             "functions plus 2 generic arrays; every ordered subset of the variables, given as list, array and boolean mask, with the basis' measure and another "
             "one; derivative orders 0..2 per variable; pairs of functions for inner products and sums",
    "thorough": "as quick over every list of 1..3 factors among 6 kinds and unit arrays for every shape",
}
ASSUMPTIONS = ["values of the univariate factors are those of fresh copies of them (property P17)",
               "the order of the functions of a full tensor-product basis is that of MultiIndices.bounded_by (property P09)"]
RULE = {"L": ["U", -1, 1], "l": ["U", 0, 2], "1": ["U", 0, 1], "H": ["N", 1, 2], "C": ["U", 0, 1], "D": ["D", [0.0, 1.0, 3.0], [1.0, 2.0, 1.0]],
        "S": ["U", -1, 1]}
OTHER = [["U", 0.5, 2.0], ["N", 0.0, 1.5], ["U", -1.0, 1.0]]


def rule(k, m=None):
    if k == "P" and m is None:
        x, w = np.polynomial.legendre.leggauss(5)
        return np.concatenate([0.5 + x / 2, 1.5 + x / 2]), np.concatenate([w, w]) / 2
    return p16.quad(m or RULE[k], 6)


def cases(tier):
    fs = ["L", "l", "H", "C", "D", "S", "P", "Ll", "HC", "DS", "1H", "PL", "CC", "lHC", "LDl", "S1H", "CLl"]
    if tier != "quick":
        fs += ["".join(p) for r in (2, 3) for p in itertools.product("LHCDSl", repeat=r) if "".join(p) not in fs]
    for f in fs:
        cl = (["uni"] if len(f) == 1 else []) + ["full", "sparse", "odd"]
        for c in cl:
            for sh in ([1], [2], [2, 3]):
                yield {"f": f, "cls": c, "shape": sh, "tier": tier}


def index_set(f, cls):
    I = box(f)
    if cls in ("uni", "full"):
        return I
    if cls == "sparse":
        return [r for r in I if sum(r) <= 2]
    return [r for r in I[::-1] if sum(r) != 1][:5] or I


def make(f, cls):
    if cls == "uni":
        return MK[f]()
    H = tensap.FunctionalBases(mk(f))
    if cls == "full":
        return tensap.FullTensorProductFunctionalBasis(H)
    return tensap.SparseTensorProductFunctionalBasis(H, tensap.MultiIndices(np.array(index_set(f, cls))))


class Explicit:
    """sum_i c_i prod_k phi_{i_k}(x_k), on a product rule"""

    def __init__(self, f, I, C, shape, mus=None):
        self.f, self.I, self.C, self.shape = f, I, C.reshape(C.shape[0], -1), shape
        self.rules = [rule(k, None if mus is None else mus[i]) for i, k in enumerate(f)]

    def vals(self, pts, n=None):
        E = [ev(k, p, 0 if n is None else n[i]) for i, (k, p) in enumerate(zip(self.f, pts))]
        return colprod(E, self.I) @ self.C

    def grid(self):
        E = [ev(k, r[0].reshape(-1, 1)) for k, r in zip(self.f, self.rules)]
        out = 0.0
        for row, i in enumerate(self.I):
            v = np.ones(())
            for e, j in zip(E, i):
                v = np.multiply.outer(v, e[:, j])
            out = out + np.multiply.outer(v, self.C[row])
        return out

    def integrate(self, G, keep):
        """integral over the variables not in keep (weights of all others); remaining axes in increasing order"""
        for k in range(len(self.f) - 1, -1, -1):
            if k not in keep:
                G = np.tensordot(self.rules[k][1], G, (0, k))
        return G

    def integral(self, G):
        return self.integrate(G, ())


def coefs(n, shape, tier):
    q = int(np.prod(shape))
    gen = [ref.gen([n] + list(shape), t) for t in (1, 2)]
    units = []
    if q == 1 or tier != "quick":
        for i in range(n):
            for j in range(q):
                u = np.zeros((n, q))
                u[i, j] = 1.0
                units.append(u.reshape([n] + list(shape), order="F"))
    return gen + units


def run(case, ctx):
    f, cls, sh = case["f"], case["cls"], case["shape"]
    I = index_set(f, cls)
    n, d = len(I), len(f)
    sig = "uni" if cls == "uni" else cls if cls == "full" else "sparse"
    cs = coefs(n, sh, case["tier"])
    for j, C in enumerate(cs):
        ctx.state(f, cls, sh, j)
        ctx.trace()
        one(ctx, case, f, cls, sh, I, C, cs[(j + 1) % len(cs)], j, sig)


def flat(C):
    return C.reshape(C.shape[0], -1, order="F")


def one(ctx, case, f, cls, sh, I, C, C2, j, sig):
    n, d, q = len(I), len(f), int(np.prod(sh))
    B = make(f, cls)
    F = G2 = None
    with ctx.op("FunctionalBasisArray", f, cls, sh, pure=[C], sig=sig + "/construct"):
        F = tensap.FunctionalBasisArray(C, B, sh)
        forms = [F, tensap.FunctionalBasisArray(flat(C), B, sh), tensap.FunctionalBasisArray(np.asfortranarray(C), B, np.array(sh)),
                 tensap.FunctionalBasisArray(C.tolist(), B, sh)]
        if len(sh) == 1:
            forms.append(tensap.FunctionalBasisArray(flat(C), B, sh[0]))
        if q == 1:
            forms += [tensap.FunctionalBasisArray(C.ravel(), B), tensap.FunctionalBasisArray(C, B)]
        for g in forms:
            ctx.close(g.get_coefficients(), C, sig + "/coefficients")
            ctx.same([int(v) for v in np.ravel(g.shape)], list(sh), sig + "/shape")
            ctx.same((int(g.storage()), int(g.sparse_storage())), (C.size, int(np.count_nonzero(C))), sig + "/storage")
        G2 = tensap.FunctionalBasisArray(C2, B, sh)
        ctx.check(F.is_random() is True, sig + "/is_random")
    if F is None or G2 is None:
        return
    R, R2 = Explicit(f, I, flat(C), sh), Explicit(f, I, flat(C2), sh)
    x = pts(f)
    X = np.hstack(x)
    O = [F, G2]

    def shp(v, m=None):
        """values with q columns -> output layout"""
        v = np.asarray(v)
        return v.reshape(v.shape[:-1] + tuple(sh), order="F") if v.ndim == 1 else np.stack([w.reshape(tuple(sh), order="F") for w in v])
    W = shp(R.vals(x))
    with ctx.op("eval", pure=O + [X], sig=sig + "/eval"):
        ctx.close(F.eval(X), W, sig + "/eval", scale=amp(W))
        ctx.close(F.eval_with_bases_evals(B.eval(X)), W, sig + "/eval", scale=amp(W))
        y = F(X)
        ctx.close(y, W[:, 0] if list(sh) == [1] else W, sig + "/call", scale=amp(W))
        if cls == "uni":
            ctx.close(F.eval(X[:, 0]), W, sig + "/eval(vector)", scale=amp(W))
        for t in range(len(X)):
            ctx.close(F.eval(X[[t]]), W[[t]], sig + "/eval(point)", scale=amp(W))
    W2 = shp(R2.vals(x))
    with ctx.op("arithmetic", pure=O, sig=sig + "/arithmetic"):
        a = amp(W, W2)
        for name, g, w in (("add", F + G2, W + W2), ("sub", F - G2, W - W2), ("neg", -F, -W), ("mul", F * 2.5, 2.5 * W), ("mul", F * -3, -3 * W)):
            ctx.close(g.eval(X), w, sig + "/" + name, scale=3 * a)
        ctx.close(((F + G2) * 2 - F).eval(X), W + 2 * W2, sig + "/chain", scale=3 * a)
        ctx.close(F.norm(), np.linalg.norm(C), sig + "/norm")
        ctx.close(np.ravel(F.dot(G2)), [np.sum(C * C2)], sig + "/dot")
        ctx.close(np.ravel(F.dot(G2, 0)), np.sum(C * C2, 0).ravel(), sig + "/dot")
    if len(sh) == 1:
        with ctx.op("matmul/matdiv", pure=O, sig=sig + "/matmul"):
            V = ref.gen([q, 3], 5)
            ctx.close(F.matmul(V).eval(X), np.squeeze(W) .reshape(len(X), q) @ V, sig + "/matmul", scale=10 * amp(W))
            V = ref.gen([q, q], 6) + 2 * np.eye(q)
            ctx.close(F.matdiv(V).eval(X), W.reshape(len(X), q) @ np.linalg.inv(V), sig + "/matdiv", scale=10 * amp(W))
    with ctx.op("sub_functional_basis", pure=O, sig=sig + "/sub_functional_basis"):
        S = F.sub_functional_basis()
        ctx.same(int(S.cardinal()), q, sig + "/sub_functional_basis")
        ctx.close(S.eval(X), R.vals(x), sig + "/sub_functional_basis", scale=amp(W))
    # derivatives
    if j < 3 and cls != "full":            # full tensor-product bases offer no derivatives
        for m in itertools.product((0, 1, 2), repeat=d):
            w = shp(R.vals(x, m))
            arg = m[0] if cls == "uni" else list(m)
            with ctx.op("eval_derivative", m, pure=O, sig=sig + "/eval_derivative"):
                ctx.close(F.eval_derivative(arg, X), w, sig + "/eval_derivative", scale=amp(w))
            if sum(m) < 3 and set(f) <= set("Ll1HCS"):
                with ctx.op("derivative", m, pure=O, sig=sig + "/derivative"):
                    ctx.close(F.derivative(arg).eval(X), w, sig + "/derivative", scale=amp(w), tol=1e-7)
        if cls != "uni":
            with ctx.op("eval_gradient", pure=O, sig=sig + "/eval_gradient"):
                w = np.stack([R.vals(x, [int(k == i) for i in range(d)]) for k in range(d)], 1)
                got = F.eval_gradient(X)
                if q > 1:
                    w = np.stack([shp(v) for v in w])
                else:
                    w = w[..., 0]
                ctx.close(got, w, sig + "/eval_gradient", scale=amp(w))
        else:
            with ctx.op("eval_gradient", pure=O, sig=sig + "/eval_gradient"):
                w = R.vals(x, [1])
                ctx.close(np.ravel(F.eval_gradient(X)), np.ravel(shp(w)), sig + "/eval_gradient", scale=amp(w))
    moments(ctx, case, f, cls, sh, I, B, F, G2, R, R2, shp, sig, None)
    if "P" not in f:
        mus = [OTHER[i % 3] for i in range(d)]
        rv = [p16.measure(m) for m in mus]
        nu = rv[0] if cls == "uni" else tensap.RandomVector(rv)
        moments(ctx, case, f, cls, sh, I, B, F, G2, Explicit(f, I, flat(C), sh, mus), Explicit(f, I, flat(C2), sh, mus), shp, sig + "/measure", nu)
    if j < 2:
        random_values(ctx, f, cls, sh, F, R, shp, sig)
        projections(ctx, f, cls, sh, I, F, C, W, X, x, sig)


def moments(ctx, case, f, cls, sh, I, B, F, G2, R, R2, shp, sig, nu):
    d, q = len(f), int(np.prod(sh))
    a = () if nu is None else (nu,)
    O = [F, G2]
    gF, gG = R.grid(), R2.grid()
    m, m2 = R.integral(gF), R2.integral(gG)
    ip, sq = R.integral(gF * gG), R.integral(gF ** 2)
    big = amp(sq, ip, R.integral(np.abs(gF)) ** 2)
    with ctx.op("mean", *a, pure=O, sig=sig + "/mean"):
        for fn in (F.mean, F.expectation):
            ctx.close(np.reshape(fn(*a), sh), shp(m), sig + "/mean", scale=amp(R.integral(np.abs(gF))))
        ctx.same(np.shape(F.mean(*a)), tuple([1] + list(sh)), sig + "/mean-shape")
    with ctx.op("dot_product_expectation", *a, pure=O, sig=sig + "/dot_product_expectation"):
        ctx.close(np.ravel(F.dot_product_expectation(F, None, *a)), np.ravel(shp(sq)), sig + "/dot_product_expectation", scale=big)
        if not set(f) & set("SP"):             # equality of such bases is identity
            ctx.close(np.ravel(F.dot_product_expectation(G2, None, *a)), np.ravel(shp(ip)), sig + "/dot_product_expectation", scale=big)
            ctx.close(np.ravel(G2.dot_product_expectation(F, None, *a)), np.ravel(shp(ip)), sig + "/dot_product_expectation", scale=big)
    with ctx.op("norm_expectation", *a, pure=O, sig=sig + "/norm_expectation"):
        ctx.close(np.ravel(F.norm_expectation(*a)) ** 2, np.ravel(shp(sq)), sig + "/norm_expectation", scale=big)
    mass = np.prod([np.sum(r[1]) for r in R.rules])
    if abs(mass - 1) < 1e-12:
        with ctx.op("variance", *a, pure=O, sig=sig + "/variance"):
            ctx.close(np.ravel(F.variance(*a)), np.ravel(shp(sq - m ** 2)), sig + "/variance", scale=big)
            s = np.ravel(F.std(*a))
            v = np.ravel(shp(sq - m ** 2))
            ok = v > 1e-6 * big
            ctx.close(s[ok] ** 2, v[ok], sig + "/std", scale=big)
    if cls == "uni":
        return
    # conditional expectations with respect to every ordered subset
    for r in range(0, d + 1):
        for s in itertools.permutations(range(d), r):
            inc = sorted(s)
            T = R.integrate(gF, inc)
            # axes in the order of s
            T = np.transpose(T, [inc.index(k) for k in s] + [len(s)])
            forms = [list(s), np.array(s, dtype=int)]
            if r == 1:
                forms.append(s[0])
            if list(s) == inc:
                mask = [k in s for k in range(d)]
                forms += [mask, np.array(mask)]
            for arg in forms:
                with ctx.op("conditional_expectation", arg, *a, pure=O, sig=sig + "/conditional_expectation"):
                    h = F.conditional_expectation(arg, *a)
                    if r == 0:
                        ctx.close(np.ravel(h), np.ravel(shp(m)), sig + "/conditional_expectation(empty)", scale=amp(m))
                        continue
                    xs = [R.rules[k][0] for k in s]
                    Z = np.stack([g.ravel() for g in np.meshgrid(*xs, indexing="ij")], 1)
                    w = T.reshape(-1, q)
                    pick = np.arange(0, len(Z), max(1, len(Z) // 7))
                    got = h.eval(Z[pick])
                    w = np.stack([shp(v) for v in w[pick]])
                    ctx.close(got, w, sig + "/conditional_expectation", scale=amp(w, gF))
                    ctx.same([int(v) for v in np.ravel(h.shape)], list(sh), sig + "/conditional_expectation-shape")
                    ctx.check(all(b.measure == MK[f[k]]().measure for b, k in zip(h.basis.bases.bases, s)) and len(h.basis.bases.bases) == r,
                              sig + "/conditional_expectation-bases")
                    if nu is None and abs(mass - 1) < 1e-12:
                        ctx.close(np.ravel(h.mean()), np.ravel(shp(m)), sig + "/tower", scale=big)
    if nu is None and abs(mass - 1) < 1e-12:
        want = {}
        for r in range(0, d + 1):
            for s in itertools.combinations(range(d), r):
                T = R.integrate(gF, s)
                full = Explicit.integral
                sub = T ** 2
                for k in reversed(s):
                    sub = np.tensordot(R.rules[k][1], sub, (0, list(s).index(k)))
                want[s] = sub - m ** 2
        for s, v in want.items():
            v = np.zeros(q) if not s else v
            mask = [k in s for k in range(d)]
            forms = [list(s), np.array(s, dtype=int), mask, np.array(mask), [mask]]
            if len(s) == 1:
                forms.append(s[0])
            if len(s) > 1:
                forms.append(list(s)[::-1])
            for arg in forms:
                with ctx.op("variance_conditional_expectation", arg, pure=O, sig=sig + "/vce"):
                    got = F.variance_conditional_expectation(arg)
                    ctx.close(got, shp(v)[None], sig + "/vce", scale=big)
        rows = list(want)
        M = np.array([[k in s for k in range(d)] for s in rows])
        for arg in (M, M.tolist()):
            with ctx.op("variance_conditional_expectation(all)", pure=O, sig=sig + "/vce(all)"):
                w = np.stack([shp(np.zeros(q) if not s else want[s]) for s in rows])
                ctx.close(F.variance_conditional_expectation(arg), w, sig + "/vce(all)", scale=big)
        for r in range(1, d + 1):
            rr = [s for s in rows if len(s) == r]
            with ctx.op("variance_conditional_expectation(rows)", r, pure=O, sig=sig + "/vce(rows)"):
                w = np.stack([shp(want[s]) for s in rr])
                ctx.close(F.variance_conditional_expectation(np.array(rr)), w, sig + "/vce(rows)", scale=big)


def random_values(ctx, f, cls, sh, F, R, shp, sig):
    if not set(f) <= set("Ll1HC"):
        return
    cnt = itertools.count()

    def unif(s):
        return 0.001 + 0.998 * np.mod((np.arange(int(np.prod(s))) + 0.37) * 0.618 + 0.1 * next(cnt), 1.0).reshape(s)
    with rng.patched(uniform=unif, normal=unif):
        for m in (1, 3):
            with ctx.op("random", m, pure=[F], sig=sig + "/random"):
                y, x = F.random(m)
                x = np.reshape(x, (m, -1))
                w = np.stack([shp(v) for v in R.vals(list(np.hsplit(x, len(f))))])
                ctx.close(y, w, sig + "/random", scale=amp(w))
                for k, c in zip(f, np.hsplit(x, len(f))):
                    lo, hi = np.ravel(MK[k]().measure.support())
                    ctx.check(np.all((c >= lo) & (c <= hi)), sig + "/random", "points outside the support")
                mus = [U(5 + i, 6 + i) for i in range(len(f))]
                y, x = F.random(m, mus[0] if cls == "uni" else tensap.RandomVector(mus))
                x = np.reshape(x, (m, -1))
                w = np.stack([shp(v) for v in R.vals(list(np.hsplit(x, len(f))))])
                ctx.close(y, w, sig + "/random", scale=amp(w))
                ctx.check(np.all((x >= 5 + np.arange(len(f))) & (x <= 6 + np.arange(len(f)))), sig + "/random", "points not drawn from the given measure")


def projections(ctx, f, cls, sh, I, F, C, W, X, x, sig):
    if cls not in ("sparse", "odd"):
        return
    box_ = box(f)
    H = tensap.FunctionalBases(mk(f))
    for name, J in (("sparse", box_), ("sparse", box_[::-1]), ("full", box_)):
        with ctx.op("projection", name, pure=[F], sig=sig + "/projection"):
            mi = tensap.MultiIndices(np.array(J))
            if name == "full":
                g = F.projection(tensap.FullTensorProductFunctionalBasis(H), tensap.MultiIndices.bounded_by([e - 1 for e in H.cardinals()]))
            else:
                g = F.projection(tensap.SparseTensorProductFunctionalBasis(H, mi))
            ctx.close(g.eval(X), W, sig + "/projection(%s)" % name, scale=amp(W))
            ctx.same(int(g.basis.cardinal()), len(J), sig + "/projection(%s)" % name)
