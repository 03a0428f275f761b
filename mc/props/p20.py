"""Functions given by a coefficient tensor on bases, in every tensor format, against explicit sums over basis products and exact quadrature."""
import itertools

import numpy as np
import tensap

from .. import ref, rng, tbt
from . import p16
from .p18 import MK, N, U, amp, ev, pts
from .p19 import OTHER, rule

ID = "P20"
BOUNDS = {
    "quick": "tensor formats full, canonical (rank 1..2), tree-based (all trees to order 3 with every activity pattern of the leaves) on 9 lists of "
             "1..3 univariate bases, one list of 4 with all trees; scalar values, and vector values through a root rank 2, or an additional tensor dimension at "
             "every position; every subset of the variables (ordered, list / array / mask) for conditional expectations, partial evaluations and partial "
             "grids; pairs of functions for sums, products and inner products; the bases' measure and another one",
    "thorough": "as quick with all trees and activity patterns of order 4 and 12 more lists of bases",
}
ASSUMPTIONS = ["values of the univariate factors are those of fresh copies of them (property P17)"]
CARD = {"L": 3, "l": 2, "1": 1, "H": 2, "C": 3, "D": 2, "S": 2, "P": 3}
PROB = set("Ll1HCDS")


def lists(tier):
    out = ["L", "H", "P", "Cl", "HD", "SL", "lHC", "PlL", "DS1", "LHlC"]
    if tier != "quick":
        out += ["l", "C", "S", "LL", "CC", "1P", "Ll", "HHH", "CDL", "lS1", "LPC", "HCDl"]
    return out


def cases(tier):
    for f in lists(tier):
        d = len(f)
        for fmt in ("full", "can1", "can2"):
            yield {"f": f, "fmt": fmt}
        if d > 1:
            for c in (tbt.active_cases([d]) if d < 4 or tier != "quick" else tbt.tree_cases([d])):
                yield dict(c, f=f, fmt="tbt", root=1)
            if d < 4:
                for c in tbt.tree_cases([d]):
                    yield dict(c, f=f, fmt="tbt", root=2)
        if d < 4:
            for pos in range(d + 1):
                yield {"f": f, "fmt": "full", "out": pos}
                yield {"f": f, "fmt": "can2", "out": pos}


def make(case, tag=0):
    """tensor and its dense value"""
    f, fmt = case["f"], case["fmt"]
    s = [CARD[k] for k in f]
    if "out" in case:
        s.insert(case["out"], 3)
    if fmt == "full":
        A = ref.gen(s, tag)
        return tensap.FullTensor(A.copy()), A
    if fmt.startswith("can"):
        r = int(fmt[3])
        sp, co = [ref.gen([n, r], tag + k) for k, n in enumerate(s)], ref.gen([r], tag + 7)
        return tensap.CanonicalTensor([x.copy() for x in sp], co.copy()), ref.cp_dense(sp, co)
    t = tbt.make(case, p=1, s=s, rootrank=case["root"], tag=tag, act=case.get("act", [1] * len(f)))
    return t, ref.tbt_dense(t)


def contract(A, mats, dims):
    """apply mats[k] (m, n) to axis dims[k], in place"""
    return ref.mode_product(A, mats, dims)


def diag_eval(A, E, dims):
    """points axis first, other axes in order"""
    L = "abcdefgh"
    rest = [k for k in range(A.ndim) if k not in dims]
    return np.einsum(",".join("n" + L[k] for k in dims) + "," + L[:A.ndim] + "->n" + "".join(L[k] for k in rest), *E, A)


def num(t):
    if isinstance(t, (list, float, int, np.ndarray, np.generic)):
        return np.asarray(t, dtype=float)
    return np.asarray(ref.dense(t), dtype=float)


def run(case, ctx):
    f = case["f"]
    d = len(f)
    fmt = case["fmt"]
    sig = fmt if fmt[:3] != "can" else "canonical"
    if fmt == "tbt" and case["root"] > 1:
        sig = "tbt-vector"
    if "out" in case:
        sig += "-vector"
    fd = [k for k in range(d + 1) if k != case["out"]] if "out" in case else list(range(d))
    B = tensap.FunctionalBases([MK[k]() for k in f])
    T, A = make(case)
    T2, A2 = make(case, 4)
    nv = A.ndim - d
    x = pts(f)
    X = np.hstack(x)
    E = [ev(k, p) for k, p in zip(f, x)]
    n = len(X)
    ctx.state(*sorted((k, str(v)) for k, v in case.items()))
    ctx.trace()
    F = None
    with ctx.op("FunctionalTensor", f, fmt, pure=[T, B], sig=sig + "/construct"):
        if "out" in case:
            F, F2 = tensap.FunctionalTensor(T, B, fd), tensap.FunctionalTensor(T2, B, np.array(fd))
        else:
            F, F2 = tensap.FunctionalTensor(T, B), tensap.FunctionalTensor(T2, B)
        ctx.same(int(F.storage()), int(T.storage()), sig + "/storage")
        ctx.same(bool(F.is_random()), all(isinstance(MK[k]().measure, tensap.ProbabilityMeasure) for k in f), sig + "/is_random")
    if F is None:
        return
    O = [F, F2, X]
    W, W2 = diag_eval(A, E, fd), diag_eval(A2, E, fd)
    sc = amp(W, W2, diag_eval(np.abs(A), [np.abs(e) for e in E], fd))
    with ctx.op("eval", pure=O, sig=sig + "/eval"):
        ctx.close(num(F.eval(X)), W, sig + "/eval", scale=sc)
        ctx.close(num(F.eval(x)), W, sig + "/eval", scale=sc)
        ctx.close(num(F(X)), W, sig + "/eval", scale=sc)
        ctx.close(num(F.eval_with_bases_evals(E)), W, sig + "/eval", scale=sc)
        for i in range(n):
            ctx.close(num(F.eval(X[[i]])), W[[i]], sig + "/eval(point)", scale=sc)
        ev_ = tensap.FunctionalTensor(T, E, fd)
        ctx.close(num(ev_.eval(None)), W, sig + "/eval(evaluated bases)", scale=sc)
        if "out" not in case and sig != "tbt-vector":
            ctx.close(float(ev_.norm()), np.linalg.norm(A), sig + "/norm(evaluated bases)")
    for m in itertools.product((0, 1, 2), repeat=d):
        if not 0 < sum(m) < 4:
            continue
        Em = [ev(k, p, q) if q else e for k, p, q, e in zip(f, x, m, E)]
        w = diag_eval(A, Em, fd)
        s1 = amp(diag_eval(np.abs(A), [np.abs(e) for e in Em], fd))
        with ctx.op("eval_derivative", m, pure=O, sig=sig + "/eval_derivative"):
            ctx.close(num(F.eval_derivative(list(m), X)), w, sig + "/eval_derivative", scale=s1)
        if set(f) <= set("LlHCS") and sum(m) < 3:
            with ctx.op("derivative", m, pure=O, sig=sig + "/derivative"):
                ctx.close(num(F.derivative(list(m)).eval(X)), w, sig + "/derivative", scale=s1, tol=1e-7)
    with ctx.op("eval_gradient", pure=O, sig=sig + "/eval_gradient"):
        w = []
        for i in range(d):
            w.append(diag_eval(A, [ev(k, p, 1) if j == i else e for j, (k, p, e) in enumerate(zip(f, x, E))], fd))
        w = np.stack(w, 1)
        ctx.close(num(F.eval_gradient(X)), w, sig + "/eval_gradient", scale=amp(w))
    with ctx.op("add", pure=O, sig=sig + "/add"):
        ctx.close(num((F + F2).eval(X)), W + W2, sig + "/add", scale=sc)
    with ctx.op("mul(scalar)", pure=O, sig=sig + "/mul(scalar)"):
        for c in (2.5, -3):
            ctx.close(num((F * c).eval(X)), c * W, sig + "/mul(scalar)", scale=3 * sc)
    if set(f) <= set("LlHC1") and fmt not in ("can1", "can2") and "out" not in case and (fmt != "tbt" or all(case.get("act", [1]))):
        with ctx.op("mul", pure=O, sig=sig + "/mul"):
            ctx.close(num((F * F2).eval(X)), W * W2, sig + "/mul", scale=sc ** 2, tol=1e-7)
    if set(f) <= set("LlHC1") and fmt == "full" and "out" not in case:
        with ctx.op("mul(other degrees)", pure=O, sig=sig + "/mul(other degrees)"):
            P = [tensap.PolynomialFunctionalBasis(MK[k]().basis, list(range(1 + (i + 1) % 2))) for i, k in enumerate(f)]
            A3 = ref.gen([b.cardinal() for b in P], 3)
            W3 = diag_eval(A3, [b.eval(p[:, 0]) for b, p in zip(P, x)], fd)
            F3 = tensap.FunctionalTensor(tensap.FullTensor(A3.copy()), tensap.FunctionalBases(P))
            ctx.close(num((F * F3).eval(X)), W * W3, sig + "/mul(other degrees)", scale=sc * amp(W3), tol=1e-7)
            ctx.close(num((F3 * F).eval(X)), W * W3, sig + "/mul(other degrees)", scale=sc * amp(W3), tol=1e-7)
    grids(ctx, case, f, F, A, fd, sig, O)
    partial(ctx, case, f, F, A, fd, x, E, sig, O)
    moments(ctx, case, f, B, F, F2, A, A2, fd, sig, None)
    if "P" not in f:
        moments(ctx, case, f, B, F, F2, A, A2, fd, sig + "/measure", [OTHER[i % 3] for i in range(d)])
    if set(f) <= set("LlHC1") and fmt == "full":
        randoms(ctx, case, f, F, A, fd, sig)


def measured(ctx, g, fs, sig):
    """measure and number of scalar variables of a function of the variables of the bases fs"""
    ctx.check(g.measure == tensap.ProductMeasure([MK[k]().measure for k in fs]), sig + "/measure", "measure of the result")
    ctx.same(int(g.dim), sum(int(np.sum(MK[k]().ndim())) for k in fs), sig + "/measure", "number of variables of the result")


def represent(ctx, g, want, rest_f, sig, sc):
    """g stands for a function of the remaining variables (bases rest_f), whose coefficient array has the axes fdims of g.tensor;
    want: points axis first, remaining axes in order"""
    if not ctx.check(isinstance(g, tensap.FunctionalTensor), sig, "result is %r" % type(g)):
        return
    ctx.same([b.cardinal() for b in g.bases.bases], [CARD[k] for k in rest_f], sig, "bases")
    measured(ctx, g, rest_f, sig)
    t = num(g.tensor)
    fdims = [int(k) for k in np.ravel(g.fdims)]
    other = [k for k in range(t.ndim) if k not in fdims]
    if not ctx.check(len(fdims) == len(rest_f) and all(0 <= k < t.ndim for k in fdims), sig, "fdims %s for %d bases, order %d" % (fdims, len(rest_f), t.ndim)):
        return
    t = np.transpose(t, other + fdims)
    if t.ndim == want.ndim - 1 and want.shape[0] == 1:
        want = want[0]                                # one point: the axis may be dropped
    ctx.close(t, want, sig, scale=sc)


def partial(ctx, case, f, F, A, fd, x, E, sig, O):
    d = len(f)
    if "out" in case or case.get("root", 1) > 1:
        return
    for r in range(1, d):
        for s in itertools.combinations(range(d), r):
            rest = [k for k in range(d) if k not in s]
            for m in ((1,) if case["fmt"] == "tbt" else (1, 4)):
                Es = [E[k][:m] for k in s]
                w = diag_eval(A, Es, list(s))
                sc = amp(diag_eval(np.abs(A), [np.abs(e) for e in Es], list(s)))
                for arg in (list(s), np.array(s)):
                    with ctx.op("eval(dims)", s, m, pure=O + [arg], sig=sig + "/eval(dims)"):
                        g = F.eval([x[k][:m] for k in s], arg)
                        represent(ctx, g, w, [f[k] for k in rest], sig + "/eval(dims)", sc)
                        g = F.eval(np.hstack([x[k][:m] for k in s]), arg)
                        represent(ctx, g, w, [f[k] for k in rest], sig + "/eval(dims)", sc)
                        g = F.eval_with_bases_evals(Es, arg)
                        represent(ctx, g, w, [f[k] for k in rest], sig + "/eval(dims)", sc)
                    with ctx.op("eval_derivative(dims)", s, m, pure=O + [arg], sig=sig + "/eval_derivative(dims)"):
                        Ed = [ev(f[k], x[k][:m], 1) for k in s]
                        wd = diag_eval(A, Ed, list(s))
                        g = F.eval_derivative([1] * r, [x[k][:m] for k in s], arg)
                        represent(ctx, g, wd, [f[k] for k in rest], sig + "/eval_derivative(dims)", amp(wd, sc))
                if m == 1:
                    # evaluation of the rest agrees with the full evaluation
                    with ctx.op("eval(dims);eval(rest)", s, pure=O, sig=sig + "/eval(dims);eval"):
                        g = F.eval([x[k][:1] for k in s], list(s))
                        got = np.ravel(num(g.eval([x[k][:1] for k in rest])))
                        ctx.close(got, np.ravel(diag_eval(A, [e[:1] for e in E], list(range(d)))), sig + "/eval(dims);eval", scale=amp(sc, w) * 10)


def grids(ctx, case, f, F, A, fd, sig, O):
    d = len(f)
    if "out" in case:
        return
    g = []
    for i, k in enumerate(f):
        p = pts(f)[i]
        g.append(p[:2 + i % 2])
    H = [ev(k, p) for k, p in zip(f, g)]
    if True:
        with ctx.op("eval_on_grid", pure=O, sig=sig + "/eval_on_grid"):
            w = contract(A, H, list(range(d)))
            ctx.close(num(F.eval_on_grid(g)), w, sig + "/eval_on_grid", scale=amp(contract(np.abs(A), [np.abs(h) for h in H], list(range(d)))))
    if case.get("root", 1) > 1:
        return
    for r in range(1, d):
        for s in itertools.permutations(range(d), r):
            w = contract(A, [H[k] for k in s], list(s))
            with ctx.op("eval_on_grid(dims)", s, pure=O, sig=sig + "/eval_on_grid(dims)"):
                h = F.eval_on_grid([g[k] for k in s], list(s))
                rest = [k for k in range(d) if k not in s]
                ctx.close(num(h.tensor), w, sig + "/eval_on_grid(dims)", scale=amp(w) * 10)
                ctx.same([int(k) for k in h.fdims], rest, sig + "/eval_on_grid(dims)", "fdims")
                ctx.same([b.cardinal() for b in h.bases.bases], [CARD[f[k]] for k in rest], sig + "/eval_on_grid(dims)", "bases")
                measured(ctx, h, [f[k] for k in rest], sig + "/eval_on_grid(dims)")


def moments(ctx, case, f, B, F, F2, A, A2, fd, sig, mus):
    d = len(f)
    R = [rule(k, None if mus is None else mus[i]) for i, k in enumerate(f)]
    V = [ev(k, r[0].reshape(-1, 1)) for k, r in zip(f, R)]
    M = [r[1] @ v for r, v in zip(R, V)]
    G = [v.T @ (r[1][:, None] * v) for r, v in zip(R, V)]
    mass = np.prod([np.sum(r[1]) for r in R])
    a = () if mus is None else (tensap.RandomVector([p16.measure(m) for m in mus]),)
    O = [F, F2]
    vec = A.ndim > d
    mean = ref.vec_product(A, M, fd) if d else A
    big = amp(A, contract(np.abs(A), [np.abs(g) for g in G], fd)) * amp(A, A2) * 10
    GA = contract(A, G, fd)
    if case["fmt"] != "tbt" or case["root"] == 1:
        with ctx.op("mean", pure=O, sig=sig + "/mean"):
            for fn in (F.mean, F.expectation):
                ctx.close(num(fn(*a)), mean, sig + "/mean", scale=big)
    if case["fmt"] == "tbt" and case["root"] > 1:
        return
    if True:
        with ctx.op("dot_product_expectation", pure=O, sig=sig + "/dot_product_expectation"):
            for g, x in ((F, A), (F2, A2)):
                w = np.sum(GA * x)
                if set(f) & set("SP") and g is not F:
                    continue
                ctx.close(float(F.dot_product_expectation(g, fd if vec else None, *a)), w, sig + "/dot_product_expectation", scale=big)
                if not vec:
                    ctx.close(float(F.dot_product_expectation(g, list(range(d)), *a)), w, sig + "/dot_product_expectation", scale=big)
        with ctx.op("norm", pure=O, sig=sig + "/norm"):
            ctx.close(float(F.norm(*a)) ** 2, np.sum(GA * A), sig + "/norm", scale=big)
        if not vec and abs(mass - 1) < 1e-12:
            v = np.sum(GA * A) - float(mean) ** 2
            with ctx.op("variance", pure=O, sig=sig + "/variance"):
                ctx.close(float(F.variance(*a)), v, sig + "/variance", scale=big)
                if v > 1e-6 * big:
                    ctx.close(float(F.std(*a)), np.sqrt(v), sig + "/std", scale=np.sqrt(big))
    if vec:
        return
    for r in range(0, d + 1):
        for s in itertools.permutations(range(d), r):
            inc = sorted(s)
            drop = [k for k in range(d) if k not in s]
            w = ref.vec_product(A, [M[k] for k in drop], drop) if drop else A
            forms = [list(s), np.array(s, dtype=int)]
            if r == 1:
                forms.append(s[0])
            if list(s) == inc:
                mask = [k in s for k in range(d)]
                forms += [mask, np.array(mask)]
            for arg in forms:
                with ctx.op("conditional_expectation", arg, pure=O, sig=sig + "/conditional_expectation"):
                    h = F.conditional_expectation(arg, *a)
                    if r == 0:
                        ctx.close(num(h), w, sig + "/conditional_expectation", scale=big)
                        continue
                    xs = [pts(f)[k] for k in inc]
                    Es = [ev(f[k], p) for k, p in zip(inc, xs)]
                    ctx.close(num(h.eval(np.hstack(xs))), diag_eval(w, Es, list(range(r))), sig + "/conditional_expectation", scale=big)
                    ctx.check(all(b.measure == MK[f[k]]().measure for b, k in zip(h.bases.bases, inc)) and len(h.bases) == r,
                              sig + "/conditional_expectation-bases")
                    measured(ctx, h, [f[k] for k in inc], sig + "/conditional_expectation")
                    if mus is None and abs(mass - 1) < 1e-12:
                        ctx.close(num(h.mean()), mean, sig + "/tower", scale=big)
    if mus is None and abs(mass - 1) < 1e-12:
        def vce(s):
            if not s:
                return 0.0
            drop = [k for k in range(d) if k not in s]
            w = ref.vec_product(A, [M[k] for k in drop], drop) if drop else A
            return float(np.sum(contract(w, [G[k] for k in s], list(range(len(s)))) * w) - float(mean) ** 2)
        for r in range(0, d + 1):
            for s in itertools.combinations(range(d), r):
                mask = [k in s for k in range(d)]
                for arg in ([list(s), np.array(s, dtype=int)] + ([s[0]] if r == 1 else []) + [mask, np.array(mask), [mask]]):
                    with ctx.op("variance_conditional_expectation", arg, pure=O, sig=sig + "/vce"):
                        ctx.close(F.variance_conditional_expectation(arg), [vce(s)], sig + "/vce", scale=big)
        rows = list(itertools.chain(*[itertools.combinations(range(d), r) for r in range(d + 1)]))
        mk_ = np.array([[k in s for k in range(d)] for s in rows])
        for arg in (mk_, mk_.tolist()):
            with ctx.op("variance_conditional_expectation(all)", pure=O, sig=sig + "/vce(all)"):
                ctx.close(F.variance_conditional_expectation(arg), [vce(s) for s in rows], sig + "/vce(all)", scale=big)


def randoms(ctx, case, f, F, A, fd, sig):
    cnt = itertools.count()

    def unif(s):
        return 0.001 + 0.998 * np.mod((np.arange(int(np.prod(s))) + 0.37) * 0.618 + 0.1 * next(cnt), 1.0).reshape(s)
    d = len(f)
    with rng.patched(uniform=unif, normal=unif):
        for m in (1, 3):
            with ctx.op("random", m, pure=[F], sig=sig + "/random"):
                y, x = F.random(m, nargout=2)
                w = diag_eval(A, [ev(k, np.reshape(p, (m, 1))) for k, p in zip(f, x)], fd)
                ctx.close(num(y), w, sig + "/random", scale=amp(w))
                ctx.same(np.shape(num(F.random(m))), np.shape(w), sig + "/random")
                nu = tensap.RandomVector([U(5 + i, 6 + i) for i in range(d)])
                y, x = F.random(m, nu, nargout=2)
                w = diag_eval(A, [ev(k, np.reshape(p, (m, 1))) for k, p in zip(f, x)], fd)
                ctx.close(num(y), w, sig + "/random", scale=amp(w))
                ctx.check(all(np.all((np.ravel(p) >= 5 + i) & (np.ravel(p) <= 6 + i)) for i, p in enumerate(x)), sig + "/random", "wrong points")
