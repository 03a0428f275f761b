"""Digit expansions, grids and tensorisation maps."""
import itertools

import numpy as np
import tensap

from .. import ref, rng

ID = "P13"
BOUNDS = {
    "quick": "bases 2..5, digits 1..4: every integer below b^d alone and every interval of integers, with and without the number of "
             "digits; all pairs of subsets of a 5-element set for the set utilities; all full grids with 1..3 factors of 1..3 nodes "
             "(also multi-dimensional factors) and every non-empty index set of a 2x2 and a 2x1x2 grid; tensorisation in base 2..4 "
             "(Python and numpy integers), level 1..3, dimension 1..3, both orderings, five pairs of measures, at every point of "
             "the finest grid (level x base <= 16 cells per variable) with five offsets including both ends of the domain",
    "thorough": "as quick with bases to 7, levels to 5, every index set of a 3x3 grid",
}


def cases(tier):
    q = tier == "quick"
    for b in range(2, 6 if q else 8):
        for d in range(1, 5 if q else 6):
            if b ** d <= (700 if q else 8000):
                yield {"kind": "digits", "b": b, "d": d}
    yield {"kind": "sets"}
    for n in (1, 2, 3):
        for s in itertools.product((1, 2, 3), repeat=n):
            yield {"kind": "grid", "s": list(s)}
    for s in ((2, 2), (2, 1, 2), (3,)) + (() if q else ((3, 3),)):
        yield {"kind": "sparse", "s": list(s)}
    for b in (2, 3, 4) + (() if q else (5,)):
        for d in (1, 2, 3) + (() if q else (4,)):
            for dim in (1, 2, 3):
                for o in (1, 2):
                    yield {"kind": "tens", "b": b, "d": d, "dim": dim, "o": o}


def run(case, ctx):
    globals()["run_" + case["kind"]](case, ctx)


def digits(i, b, d):
    return [(i // b ** (d - 1 - k)) % b for k in range(d)]


def run_digits(case, ctx):
    b, d = case["b"], case["d"]
    n = b ** d
    for bb in (b, np.int64(b)):
        every = list(range(n))
        lists = [every, every[::-1], np.array(every)] + [[i] for i in every] + [np.array([i, n - 1]) for i in every[:40]]
        for L in lists:
            ctx.trace()
            with ctx.op("integer2baseb", L, bb, d, pure=[L], sig="integer2baseb"):
                I = tensap.integer2baseb(L, bb, d)
                ctx.same(np.asarray(I), np.array([digits(int(i), b, d) for i in L]), "integer2baseb")
                ctx.same([int(v) for v in tensap.baseb2integer(I, bb)], [int(i) for i in L], "baseb2integer")
                ctx.state("d", b, d, len(L))
    # the number of digits is deduced: minimal number allowing the representation
    for i in range(n):
        k = 1
        while b ** k <= i:
            k += 1
        ctx.trace()
        for L, want in (([i], [digits(i, b, k)]), ([0, i], [digits(0, b, k), digits(i, b, k)]), (i, [digits(i, b, k)])):
            with ctx.op("integer2baseb", L, b, sig="integer2baseb/auto"):
                I = tensap.integer2baseb(L, b)
                ctx.same(np.asarray(I), np.array(want), "integer2baseb/auto")
                ctx.same([int(v) for v in tensap.baseb2integer(I, b)], [int(v) for v in np.ravel(L)], "baseb2integer")
    if b ** d <= 81:
        for t in itertools.product(range(b), repeat=d):
            with ctx.op("baseb2integer", t, b, sig="baseb2integer"):
                v = sum(x * b ** (d - 1 - k) for k, x in enumerate(t))
                ctx.same([int(x) for x in np.ravel(tensap.baseb2integer(list(t), b))], [v], "baseb2integer")


def run_sets(case, ctx):
    els = [0, 1, 2, 3, 4]
    subs = [list(c) for k in range(6) for c in itertools.combinations(els, k)]
    for a in subs:
        for c in subs:
            for x, y in ((a, c), (a[::-1], c), (a, c[::-1])):
                X, Y = np.array(x, dtype=int), np.array(y, dtype=int)
                ctx.trace()
                with ctx.op("fast_setdiff", x, y, pure=[X, Y], sig="fast_setdiff"):
                    ctx.same([int(v) for v in tensap.fast_setdiff(X, Y)], [v for v in x if v not in y], "fast_setdiff")
                with ctx.op("fast_intersect", x, y, pure=[X, Y], sig="fast_intersect"):
                    ctx.same([int(v) for v in tensap.fast_intersect(X, Y)], sorted(set(x) & set(y)), "fast_intersect")
                ctx.state("s", tuple(x), tuple(y))


def fro(ranges):
    return [t[::-1] for t in itertools.product(*[list(r) for r in ranges[::-1]])]


def run_grid(case, ctx):
    s = tuple(case["s"])
    d = len(s)
    for w in itertools.product((1, 2), repeat=d):            # number of coordinates of each factor
        for flat in (False, True):
            if flat and max(w) > 1:
                continue
            G = [ref.gen((n, k), i) for i, (n, k) in enumerate(zip(s, w))]
            arg = [g[:, 0].copy() for g in G] if flat else [g.copy() for g in G]
            ctx.trace()
            with ctx.op("FullTensorGrid", s, w, pure=[arg], sig="FullTensorGrid"):
                g = tensap.FullTensorGrid(arg)
                check_grid(ctx, g, G, s, "FullTensorGrid")
    for n in (1, 2, 3):
        a = ref.gen((n,), 1)
        for arg in (a, list(a)):
            with ctx.op("FullTensorGrid(isotropic)", n, d, pure=[arg], sig="FullTensorGrid/isotropic"):
                g = tensap.FullTensorGrid(arg, d)
                check_grid(ctx, g, [a.reshape(-1, 1)] * d, (n,) * d, "FullTensorGrid/isotropic")
    X = tensap.RandomVector([tensap.UniformRandomVariable(k, k + 2) for k in range(d)])
    for n in (list(s), s[0], np.array(s)):
        nn = [s[0]] * d if np.ndim(n) == 0 else list(s)
        cnt = [0]

        def rand(k):
            cnt[0] += 1
            return (np.arange(int(np.prod(k))) + cnt[0]).reshape(k) / 10.0
        with ctx.op("FullTensorGrid.random", n, sig="FullTensorGrid.random"):
            with rng.patched(uniform=rand) as used:
                g = tensap.FullTensorGrid.random(X, n)
            if len(used) == d:
                check_grid(ctx, g, [((np.arange(m) + k + 1) / 10 * 2 + k).reshape(-1, 1) for k, m in enumerate(nn)], tuple(nn),
                           "FullTensorGrid.random")


def check_grid(ctx, g, G, s, sig):
    d = len(s)
    idx = fro([range(n) for n in s])
    pts = np.array([np.concatenate([G[k][i[k]] for k in range(d)]) for i in idx])
    ctx.same([int(v) for v in g.shape], list(s), sig, "shape")
    ctx.same((int(g.dim), int(g.ndim()), int(g.size)), (d, d, len(idx)), sig, "dim/size")
    ctx.same([tuple(int(v) for v in r) for r in g.multi_indices().array], idx, sig, "multi_indices")
    ctx.close(g.array(), pts, sig, msg="array():")
    ctx.close(g.array(np.array(idx[::-1])), pts[::-1], sig, msg="array(ind):")
    ctx.close(g.eval_at_indices(np.array(idx[::2])), pts[::2], sig, msg="eval_at_indices:")
    # arrays built on the grid: value of the array at a multi-index belongs to the grid point of that multi-index
    f = tensap.UserDefinedFunction(lambda x: x @ np.arange(1.0, x.shape[1] + 1) + x[:, 0] ** 2, pts.shape[1])
    f.evaluation_at_multiple_points = True
    if pts.shape[1] == d:
        y = f.eval_on_tensor_grid(g)
        ctx.same([int(v) for v in y.shape], list(s), sig, "eval_on_tensor_grid shape")
        for i, x in zip(idx, pts):
            ctx.close(y.data[i], x @ np.arange(1.0, d + 1) + x[0] ** 2, sig, msg="eval_on_tensor_grid at %s:" % (i,))
    ctx.state(sig, s, pts.shape)


def run_sparse(case, ctx):
    s = tuple(case["s"])
    d = len(s)
    box = list(itertools.product(*[range(n) for n in s]))
    for b in range(1, 2 ** len(box)):
        I = [x for i, x in enumerate(box) if (b >> i) & 1]
        for II in (I, I[::-1]):
            m = tensap.MultiIndices(np.array(II))
            G = [ref.gen((n, 1), k) for k, n in enumerate(s)]
            ctx.trace()
            arg = [g.copy() for g in G]
            with ctx.op("SparseTensorGrid", s, II, pure=[m, arg], sig="SparseTensorGrid"):
                g = tensap.SparseTensorGrid(arg, m)
                pts = np.array([[G[k][i[k], 0] for k in range(d)] for i in II])
                ctx.same((int(g.dim), int(g.size)), (d, len(II)), "SparseTensorGrid", "dim/size")
                ctx.same([int(v) for v in g.shape], list(s), "SparseTensorGrid", "shape")
                ctx.close(g.array(), pts, "SparseTensorGrid")
                f = tensap.UserDefinedFunction(lambda x: x @ np.arange(1.0, d + 1), d)
                f.evaluation_at_multiple_points = True
                z = f.eval_on_tensor_grid(g)
                w = np.zeros(s)
                for i, x in zip(II, pts):
                    w[i] = x @ np.arange(1.0, d + 1)
                ctx.close(ref.dense(z), w, "SparseTensorGrid/eval_on_tensor_grid")
            if len(set(s)) == 1:
                a = ref.gen((s[0],), 5)
                with ctx.op("SparseTensorGrid(isotropic)", s, II, pure=[m, a], sig="SparseTensorGrid/isotropic"):
                    g = tensap.SparseTensorGrid(a, m, d)
                    ctx.close(g.array(), np.array([[a[k] for k in i] for i in II]), "SparseTensorGrid/isotropic")
            ctx.state("sp", s, tuple(II))


U, N = tensap.UniformRandomVariable, tensap.NormalRandomVariable


def measures(dim):
    yield None, None, [(0.0, 1.0)] * dim
    yield U(-1, 2), None, [(-1.0, 3.0)] * dim
    yield tensap.RandomVector([U(k, k + 1 + k) for k in range(dim)]), U(-1, 1), [(float(k), 1.0 + k) for k in range(dim)]
    yield N(0.5, 2), None, "normal"
    yield None, tensap.RandomVector([U(-1, 1 + k) for k in range(dim)]), [(0.0, 1.0)] * dim


def run_tens(case, ctx):
    b, d, dim, o = case["b"], case["d"], case["dim"], case["o"]
    n = b ** d
    offs = (0.0, 0.25, 0.5, 0.9)
    if n > 16:
        cells = sorted({0, 1, b - 1, b, n // 2, n - b, n - 2, n - 1})
    else:
        cells = list(range(n))
    one = [(c, y) for c in cells for y in offs] + [(n - 1, 1.0)]
    # dim > 1: variable 0 runs over everything, the others over shifted copies (all pairs for small sets)
    rows = [tuple(one[(i + 3 * k * (i // len(one) + 1) + k) % len(one)] for k in range(dim)) for i in range(len(one) * (1 if dim == 1 else 3))]
    for X, Y, dom in measures(dim):
        for bb in (b, np.int64(b)):
            T = tensap.Tensorizer(bb, d, dim, X, Y)
            T.ordering_type = o
            tens_one(ctx, T, b, d, dim, o, dom, rows, n)


def tens_one(ctx, T, b, d, dim, o, dom, rows, n):
    from scipy.stats import norm
    XR = [T.X.random_variables[k] for k in range(dim)]
    YR = [T.Y.random_variables[k] for k in range(dim)]
    u = np.array([[(c + y) / n for c, y in r] for r in rows])
    if dom == "normal":
        u = np.clip(u, 1e-3, 1 - 1e-3)
        x = norm.ppf(u, 0.5, 2)
    else:
        x = np.array([[lo + le * v for (lo, le), v in zip(dom, r)] for r in u])
    yi = lambda k, v: YR[k].inf + v * (YR[k].sup - YR[k].inf)      # noqa  (Y is always uniform here)
    ctx.trace()
    sig = "tensorizer"
    z = None
    with ctx.op("map", pure=[x, T], sig=sig + "/map"):
        z = T.map(x)
        ctx.same(tuple(np.shape(z)), (len(rows), (d + 1) * dim), sig + "/map", "shape")
        y2, i2 = T.map(x, 2)
        ctx.close(np.hstack((i2, y2)), z, sig + "/map/nargout", msg="map(x, 2):")
        if dim == 1:
            ctx.close(T.map(x[:, 0].copy()), z, sig + "/map/one-dimensional array")
            y2, i2 = T.u2z(u, b, d, 2)
            zu = T.u2z(u[:, 0].tolist(), b, d)
            ctx.close(np.column_stack((i2, y2)), zu, sig + "/u2z")
            ctx.close(np.ravel(T.z2u(zu, b)), u[:, 0], sig + "/z2u", tol=1e-9)
        dig = np.asarray(z[:, :d * dim])
        ctx.check(np.all(dig == np.floor(dig)) and np.all(dig >= 0) and np.all(dig <= b - 1), sig + "/map", "digits out of range")
        lo = np.array([yi(k, 0.0) for k in range(dim)])
        hi = np.array([yi(k, 1.0) for k in range(dim)])
        yy = np.asarray(z[:, d * dim:])
        ctx.check(np.all(yy >= lo - 1e-9) and np.all(yy <= hi + 1e-9), sig + "/map", "y out of range")
        # value of each digit, where the point is inside a cell
        for r, zr, ur in zip(rows, np.asarray(z), u):
            for k in range(dim):
                v = ur[k] * n
                if abs(v - round(v)) < 1e-6 and not (ur[k] == 1.0):
                    continue
                c = min(int(np.floor(v)), n - 1)
                want = digits(c, b, d)
                got = [zr[k * d + l] if o == 1 else zr[l * dim + k] for l in range(d)]
                ctx.same([int(a) for a in got], want, sig + "/map/digits", "variable %d of u=%s" % (k, ur))
                ctx.close(zr[d * dim + k], yi(k, v - c), sig + "/map/y", tol=1e-8)
    if z is None:
        return
    with ctx.op("inverse_map", pure=[z, T], sig=sig + "/inverse_map"):
        ctx.close(T.inverse_map(z), x, sig + "/inverse_map", tol=1e-8, msg="inverse of the map:")
    # every digit string with y at 0, 1/2 maps into the right cell and back
    strings = list(itertools.product(range(b), repeat=d))
    strings = strings if len(strings) <= 16 else strings[::5]
    zz, uu = [], []
    for t, y in itertools.product(strings, (0.0, 0.5)):
        per = [(t if k % 2 == 0 else t[::-1]) for k in range(dim)]
        ys = [y if k == 0 else 0.25 for k in range(dim)]
        if dom == "normal" and (sum(t) == 0 or y == 0.0):
            continue
        flat = [v for p in per for v in p] if o == 1 else [per[k][l] for l in range(d) for k in range(dim)]
        zz.append(flat + [yi(k, v) for k, v in enumerate(ys)])
        uu.append([(sum(v * b ** (d - 1 - j) for j, v in enumerate(p)) + w) / n for p, w in zip(per, ys)])
    zz, uu = np.array(zz), np.array(uu)
    xx = norm.ppf(uu, 0.5, 2) if dom == "normal" else np.array([[lo + le * v for (lo, le), v in zip(dom, r)] for r in uu])
    with ctx.op("inverse_map", "digit strings", pure=[zz, T], sig=sig + "/inverse_map"):
        ctx.close(T.inverse_map(zz), xx, sig + "/inverse_map", tol=1e-8)
        ctx.close(T.inverse_map(zz[-1]), xx[-1:], sig + "/inverse_map/one point", tol=1e-8)
    fx = np.sum(np.cos(xx) * np.arange(1, dim + 1), 1) + np.prod(xx, 1)

    def raw(v):
        return np.sum(np.cos(v) * np.arange(1, dim + 1), 1) + np.prod(v, 1)
    uf = tensap.UserDefinedFunction(raw, dim)
    uf.evaluation_at_multiple_points = False
    for name, f in (("callable", raw), ("Function", uf)):
        with ctx.op("tensorize", name, sig=sig + "/tensorize"):
            g = T.tensorize(f)
            ctx.check(isinstance(g, tensap.TensorizedFunction), sig + "/tensorize", "type")
            ctx.close(np.ravel(g.fun(zz)), fx, sig + "/tensorize", tol=1e-8, msg="at digits:")
            ctx.close(np.ravel(g(zz)), fx, sig + "/tensorize", tol=1e-8, msg="__call__ at digits:")
            ctx.close(np.ravel(g(xx)), fx, sig + "/tensorize", tol=1e-8, msg="at the original coordinates:")
            ctx.close(np.ravel(g.eval(xx)), fx, sig + "/tensorize", tol=1e-8, msg="eval at the original coordinates:")
            if dim == 1:
                ctx.close(np.ravel(g.eval(xx[:, 0].copy())), fx, sig + "/tensorize", tol=1e-8, msg="eval on a one-dimensional array:")
            ctx.same(int(g.dim), dim, sig + "/tensorize", "dim")
            ctx.same(int(g.fun.dim), (d + 1) * dim, sig + "/tensorize", "dim of the tensorised function")
            dm = np.array(g.domain(), dtype=float)
            ctx.close(dm, np.array([r.support() for r in XR], dtype=float), sig + "/tensorize/domain") if dom != "normal" else None
    with ctx.op("tensorized_function_functional_bases", pure=[T], sig=sig + "/bases"):
        H = T.tensorized_function_functional_bases(1)
        ctx.same(len(H.bases), (d + 1) * dim, sig + "/bases", "number of bases")
        E = H.eval(zz)
        for k in range(d * dim):
            B = np.asarray(H.bases[k].eval(np.arange(b).reshape(-1, 1) * 1.0))
            ctx.close(B.T @ B / b, np.eye(b), sig + "/bases", tol=1e-8, msg="orthonormality of the digit basis")
        for k in range(dim):
            ctx.same(int(H.bases[d * dim + k].cardinal()), 2, sig + "/bases", "cardinal")
            lo, hi = yi(k, 0.0), yi(k, 1.0)
            t = (2 * zz[:, d * dim + k] - lo - hi) / (hi - lo)
            ctx.close(E[d * dim + k], np.column_stack([np.ones(len(t)), np.sqrt(3) * t]), sig + "/bases", tol=1e-7)
    with ctx.op("tensorized_function_functional_bases", "function", pure=[T], sig=sig + "/bases/function"):
        H = T.tensorized_function_functional_bases(lambda v: v ** 2)
        ctx.same([int(h.cardinal()) for h in H.bases], [b] * (d * dim) + [1] * dim, sig + "/bases/function", "cardinals")
    ctx.state("tens", b, d, dim, o, str(dom))
