"""Multi-index sets against Python sets of tuples."""
import itertools

import numpy as np
import tensap

ID = "P12"
BOUNDS = {
    "quick": "every non-empty subset of {0,1,2}^2 and {0,1}^3 and {0,..,4}, in two storage orders, under every unary operation and "
             "parameter; every ordered pair of subsets of {0,1}x{0,1,2} and of {0,1,2,3} under every binary operation; all "
             "two-operation histories from the subsets of {0,1}x{0,1}; every named set with dimension 1..3 (4 for products), "
             "bound 0..4 and nine bounds which are not integers, p in {1/2, 1, 2, 3, inf}, all weights over {1/2, 1, 2} and {0.1, 0.7, 1.1}",
    "thorough": "as quick with pairs of subsets of {0,1,2}^2 (every second one), three-operation histories, bounds up to 6 and "
                "dimension up to 4",
}
MI = tensap.MultiIndices


def boxes(*n):
    return list(itertools.product(*[range(k) for k in n]))


def cases(tier):
    q = tier == "quick"
    for bi, box in enumerate(BOXES):
        n = 2 ** len(box)
        for lo in range(1, n, 16):
            yield {"kind": "unary", "box": bi, "lo": lo, "hi": min(lo + 16, n)}
    for bi in (3, 4):
        n = 2 ** len(BOXES[bi])
        for lo in range(1, n, 4):
            yield {"kind": "pairs", "box": bi, "lo": lo, "hi": min(lo + 4, n), "step": 1}
    if not q:
        for lo in range(1, 512, 8):
            yield {"kind": "pairs", "box": 0, "lo": lo, "hi": lo + 8, "step": 2}
    for lo in range(1, 16):
        yield {"kind": "hist", "lo": lo, "depth": 2 if q else 3}
    for d in (1, 2, 3) if q else (1, 2, 3, 4):
        for m in range(0, 5 if q else 7):
            yield {"kind": "named", "d": d, "m": m}
    for d in (1, 2, 3):
        yield {"kind": "real", "d": d}
    yield {"kind": "product"}
    yield {"kind": "subind"}


BOXES = [boxes(3, 3), boxes(2, 2, 2), boxes(5), boxes(2, 3), boxes(4)]


def run(case, ctx):
    globals()["run_" + case["kind"]](case, ctx)


def pick(box, b):
    return [x for i, x in enumerate(box) if (b >> i) & 1]


def rows(x):
    return [tuple(int(v) for v in r) for r in np.asarray(x.array)]


def isset(ctx, x, want, d, sig, order=None):
    if not ctx.check(isinstance(x, MI), sig, "result is %r" % type(x)):
        return
    a = np.asarray(x.array)
    ctx.check(a.ndim == 2 and a.shape[1] == d and np.issubdtype(a.dtype, np.integer), sig, "array %s %s" % (a.shape, a.dtype))
    r = rows(x)
    ctx.same(sorted(r), sorted(want), sig)
    ctx.same((int(x.cardinal()), int(x.ndim())), (len(want), d), sig, "cardinal/ndim")
    if order is not None:
        ctx.same(r, list(order), sig, "order of the indices")
    ctx.state(sig, tuple(sorted(want)))


def pnorm(i, p, w=None):
    i = [a * b for a, b in zip(i, w)] if w is not None else i
    return float(max(i)) if p == np.inf else sum(float(a) ** p for a in i) ** (1 / p)


def margin(S, d):
    out = set()
    for i in S:
        for k in range(d):
            j = tuple(v + (1 if k == l else 0) for l, v in enumerate(i))
            if j not in S:
                out.add(j)
    return out


def down(i, k):
    return tuple(v - (1 if k == l else 0) for l, v in enumerate(i))


def closed(S, m=0):
    return all(down(i, k) in S for i in S for k in range(len(i)) if i[k] > m)


PS = (0.5, 1, 2, 3, np.inf)


def run_unary(case, ctx):
    box = BOXES[case["box"]]
    d = len(box[0])
    for b in range(case["lo"], case["hi"]):
        R = pick(box, b)
        for RR in (R, R[::-1]):
            x = MI(np.array(RR))
            ctx.trace()
            with ctx.step("set %s" % (RR,)):
                unary(ctx, x, RR, set(RR), d)


def unary(ctx, x, R, S, d):
    P = [x]
    with ctx.op("construct", pure=P):
        isset(ctx, x, R, d, "construct", R)
        isset(ctx, MI(x), R, d, "construct/copy", R)
        ctx.same([tuple(int(v) for v in c) for c in x.to_list()], [tuple(r[k] for r in R) for k in range(d)], "to_list")
    for p in PS:
        nrm = [pnorm(r, p) for r in R]
        with ctx.op("norm", p, pure=P, sig="norm"):
            ctx.close(x.norm(p), nrm, "norm")
            ctx.close(x.norm(p, [len(R) - 1, 0]), [nrm[-1], nrm[0]], "norm")
        for mode, s in (("ascend", 1), ("descend", -1)):
            with ctx.op("sort_by_norm", p, mode, pure=P, sig="sort_by_norm"):
                z = x.sort_by_norm(p, mode)
                isset(ctx, z, R, d, "sort_by_norm")
                v = [s * pnorm(r, p) for r in rows(z)]
                ctx.check(all(a <= b2 + 1e-12 for a, b2 in zip(v, v[1:])), "sort_by_norm", "norms %s" % v)
        for w in ([1, 2, 3][:d], [2, 1, 0.5][:d]):
            with ctx.op("weighted_norm", p, w, pure=P + [w], sig="weighted_norm"):
                ctx.close(x.weighted_norm(p, w), [pnorm(r, p, w) for r in R], "weighted_norm")
                ctx.close(x.weighted_norm(p, w, [0]), [pnorm(R[0], p, w)], "weighted_norm")
                for mode, sg in ((None, 1), ("ascend", 1), ("descend", -1)):
                    z = x.sort_by_weighted_norm(p, w) if mode is None else x.sort_by_weighted_norm(p, w, mode)
                    isset(ctx, z, R, d, "sort_by_weighted_norm")
                    v = [sg * pnorm(r, p, w) for r in rows(z)]
                    ctx.check(all(a <= b2 + 1e-12 for a, b2 in zip(v, v[1:])), "sort_by_weighted_norm", "norms %s" % v)
    for cols in [None] + list(itertools.permutations(range(d))):
        cc = list(range(d))[::-1] if cols is None else list(cols)
        for mode in ("ascend", "descend"):
            with ctx.op("sort", cols, mode, pure=P, sig="sort/" + mode):
                z = x.sort(None if cols is None else np.array(cols), mode)
                isset(ctx, z, R, d, "sort/" + mode, sorted(R, key=lambda r: tuple(r[k] for k in cc), reverse=mode == "descend"))
    for k in (0, 1, 3, -1):
        if k < 0 and min(min(r) for r in R) < 1:
            continue
        with ctx.op("shift", k, pure=P, sig="shift"):
            isset(ctx, x + k, [tuple(v + k for v in r) for r in R], d, "shift", [tuple(v + k for v in r) for r in R])
            isset(ctx, x - (-k), [tuple(v + k for v in r) for r in R], d, "shift")
            isset(ctx, k + x, [tuple(v + k for v in r) for r in R], d, "shift/right", [tuple(v + k for v in r) for r in R])
    with ctx.op("shift", "vector", pure=P, sig="shift"):
        v = np.arange(1, d + 1)
        isset(ctx, x + v, [tuple(a + b for a, b in zip(r, v)) for r in R], d, "shift")
    for k in range(len(R)):
        with ctx.op("keep/get/remove", k, pure=P, sig="keep_indices"):
            isset(ctx, x.keep_indices(k), [R[k]], d, "keep_indices", [R[k]])
            ctx.same(tuple(int(v) for v in x.get_indices(k)), R[k], "get_indices")
            isset(ctx, x.remove_indices(k), R[:k] + R[k + 1:], d, "remove_indices/number", R[:k] + R[k + 1:])
            for l in range(k):
                isset(ctx, x.keep_indices([k, l]), [R[k], R[l]], d, "keep_indices", [R[k], R[l]])
                ctx.same(np.asarray(x.get_indices([k, l])), np.array([R[k], R[l]]), "get_indices")
                rest = [r for i, r in enumerate(R) if i not in (k, l)]
                isset(ctx, x.remove_indices(np.array([k, l])), rest, d, "remove_indices/number", rest)
    for r in range(1, d + 1):
        for dims in itertools.permutations(range(d), r):
            with ctx.op("keep_dims", dims, pure=P, sig="keep_dims"):
                isset(ctx, x.keep_dims(list(dims)), {tuple(i[k] for k in dims) for i in R}, r, "keep_dims")
            if r < d:
                keep = [k for k in range(d) if k not in dims]
                with ctx.op("remove_dims", dims, pure=P, sig="remove_dims"):
                    isset(ctx, x.remove_dims(list(dims)), {tuple(i[k] for k in keep) for i in R}, d - r, "remove_dims")
                    if r == 1:
                        isset(ctx, x.remove_dims(dims[0]), {tuple(i[k] for k in keep) for i in R}, d - r, "remove_dims")
    with ctx.op("is_downward_closed", pure=P):
        ctx.same(bool(x.is_downward_closed()), closed(S), "is_downward_closed")
        y = x + 1
        ctx.same(bool(y.is_downward_closed(1)), closed(S), "is_downward_closed/m")
        if 0 not in {v for r in R for v in r}:
            ctx.same(bool(x.is_downward_closed(1)), closed(S, 1), "is_downward_closed/m")
    with ctx.op("get_margin", pure=P):
        isset(ctx, x.get_margin(), margin(S, d), d, "get_margin")
    with ctx.op("get_reduced_margin", pure=P):
        red = {j for j in margin(S, d) if all(down(j, k) in S for k in range(d) if j[k] > 0)}
        isset(ctx, x.get_reduced_margin(), red, d, "get_reduced_margin")
    if closed(S):
        with ctx.op("get_maximal_indices", pure=P):
            mx = {i for i in S if not any(j != i and all(a <= b for a, b in zip(i, j)) for j in S)}
            isset(ctx, x.get_maximal_indices(), mx, d, "get_maximal_indices")
    u = [((-1) ** k) * (1.0 + (7 * k) % 5) for k in range(len(R))]
    w = [max(abs(u[l]) for l, j in enumerate(R) if all(a >= b for a, b in zip(j, i))) for i in R]
    for uu in (np.array(u), u, np.array(u).astype(int)):
        with ctx.op("envelope", pure=P + [uu]):
            ctx.close(x.envelope(uu), w, "envelope")
    shape = [max(r[k] for r in R) + 1 + k for k in range(d)]
    with ctx.op("sub2ind", shape, pure=P + [shape], sig="sub2ind"):
        e = x.sub2ind(shape)
        want = [sum(v * int(np.prod(shape[:k])) for k, v in enumerate(r)) for r in R]
        ctx.same([int(v) for v in e], want, "sub2ind")
        isset(ctx, MI.ind2sub(shape, e), R, d, "ind2sub", R)


def run_pairs(case, ctx):
    box = BOXES[case["box"]]
    d = len(box[0])
    for b in range(case["lo"], min(case["hi"], 2 ** len(box))):
        R = pick(box, b)
        S = set(R)
        for c in range(1, 2 ** len(box), case["step"]):
            Q = pick(box, c)[::-1]
            x, y = MI(np.array(R)), MI(np.array(Q))
            P = [x, y]
            ctx.trace()
            with ctx.step("%s,%s" % (R, Q)):
                with ctx.op("add_indices", pure=P):
                    isset(ctx, x.add_indices(y), S | set(Q), d, "add_indices")
                with ctx.op("remove_indices", pure=P):
                    isset(ctx, x.remove_indices(y), S - set(Q), d, "remove_indices", [r for r in R if r not in Q])
                with ctx.op("intersect_indices", pure=P):
                    z, i, j = x.intersect_indices(y)
                    isset(ctx, z, S & set(Q), d, "intersect_indices")
                    ctx.same([R[int(k)] for k in i], rows(z), "intersect_indices", "positions in the first set")
                    ctx.same([Q[int(k)] for k in j], rows(z), "intersect_indices", "positions in the second set")
                with ctx.op("product", pure=P):
                    isset(ctx, x.product(y), {r + q for r in R for q in Q}, 2 * d, "product")
                if len(Q) == 1 or len(Q) == len(R):
                    QQ = Q * len(R) if len(Q) == 1 else Q
                    with ctx.op("compare", pure=P, sig="compare"):
                        ctx.same([bool(v) for v in np.ravel(x == y)], [a == b2 for a, b2 in zip(R, QQ)], "compare/==")
                        ctx.same([bool(v) for v in np.ravel(x <= y)],
                                 [all(s <= t for s, t in zip(a, b2)) for a, b2 in zip(R, QQ)], "compare/<=")
    with ctx.op("product", None):
        isset(ctx, MI(np.array(box)).product(None), box, d, "product/None")


def steps(x, R, d):
    S = set(R)
    y = MI(np.array([[0] * d, [2] + [0] * (d - 1), [1] * d]))
    Q = set(rows(y))
    yield "add", lambda: x.add_indices(y), S | Q, d, [x, y]
    yield "remove", lambda: x.remove_indices(y), S - Q, d, [x, y]
    yield "intersect", lambda: x.intersect_indices(y)[0], S & Q, d, [x, y]
    yield "margin", lambda: x.get_margin(), margin(S, d), d, [x]
    yield "union margin", lambda: x.add_indices(x.get_margin()), S | margin(S, d), d, [x]
    yield "shift", lambda: x + 1, {tuple(v + 1 for v in r) for r in S}, d, [x]
    yield "sort", lambda: x.sort(), S, d, [x]
    yield "sort_by_norm", lambda: x.sort_by_norm(2) if S else x, S, d, [x]
    for k in range(d):
        if d > 1:
            yield "keep_dims %d" % k, lambda k=k: x.keep_dims([k]), {(r[k],) for r in S}, 1, [x]
            yield "remove_dims %d" % k, lambda k=k: x.remove_dims([k]), {r[:k] + r[k + 1:] for r in S}, d - 1, [x]
    if len(S) > 0:
        yield "drop first", lambda: x.remove_indices(0), S - {R[0]}, d, [x]


def walk(ctx, x, R, d, depth):
    if depth == 0:
        return
    for name, f, want, e, P in steps(x, R, d):
        z = None
        with ctx.op(name, pure=P, sig="hist/" + name.split()[0]):
            z = f()
            isset(ctx, z, want, e, "hist/" + name.split()[0])
            ctx.same(bool(z.is_downward_closed()), closed(want) if e else True, "hist/is_downward_closed")
        if isinstance(z, MI):
            with ctx.step(name):
                walk(ctx, z, rows(z), e, depth - 1)


def run_hist(case, ctx):
    R = pick(boxes(2, 2), case["lo"])
    ctx.trace()
    walk(ctx, MI(np.array(R)), R, 2, case["depth"])


def brute(d, top, ok):
    return {i for i in itertools.product(range(top + 1), repeat=d) if ok(i)}


def run_named(case, ctx):
    d, m = case["d"], case["m"]
    e = 1e-9
    ctx.trace()
    for p in PS:
        with ctx.op("with_bounded_norm", d, p, m, sig="with_bounded_norm"):
            isset(ctx, MI.with_bounded_norm(d, p, m), brute(d, m, lambda i: pnorm(i, p) <= m + e), d, "with_bounded_norm")
        for w in itertools.product((0.5, 1, 2), repeat=d):
            wl = list(w)
            with ctx.op("with_bounded_weighted_norm", d, p, m, w, pure=[wl], sig="with_bounded_weighted_norm"):
                isset(ctx, MI.with_bounded_weighted_norm(d, p, m, wl), brute(d, 2 * m, lambda i: pnorm(i, p, w) <= m + e), d,
                      "with_bounded_weighted_norm")
    with ctx.op("hyperbolic_cross_set", d, m, sig="hyperbolic_cross_set"):
        isset(ctx, MI.hyperbolic_cross_set(d, m), brute(d, m, lambda i: np.prod([v + 1 for v in i]) <= m + 1), d,
              "hyperbolic_cross_set")
    for w in itertools.product((0.5, 1, 2), repeat=d):
        top = (m + 1) ** 2
        if top ** d > 40000:
            continue
        wl = list(w)
        with ctx.op("weighted_hyperbolic_cross_set", d, m, w, pure=[wl], sig="weighted_hyperbolic_cross_set"):
            isset(ctx, MI.weighted_hyperbolic_cross_set(d, m, wl),
                  brute(d, top, lambda i: np.prod([float(v + 1) ** a for v, a in zip(i, w)]) <= m + 1 + e), d,
                  "weighted_hyperbolic_cross_set")
    for k in range(1, d + 1):
        with ctx.op("low_order_interactions", d, m, k, sig="low_order_interactions"):
            isset(ctx, MI.low_order_interactions(d, m, k), brute(d, m, lambda i: sum(v > 0 for v in i) <= k), d,
                  "low_order_interactions")


def run_real(case, ctx):
    """Bounds which are not integers, weights whose products are only equal to the bound up to rounding."""
    d = case["d"]
    for m in (0.3, 0.5, 0.7, 1.5, 2.2, 2.5, 3.7, 0.6, 1.2):
        ctx.trace()
        e = 1e-9
        for p in PS:
            with ctx.op("with_bounded_norm", d, p, m, sig="with_bounded_norm/real"):
                isset(ctx, MI.with_bounded_norm(d, p, m), brute(d, 4, lambda i: pnorm(i, p) <= m + e), d, "with_bounded_norm/real")
            for w in itertools.product((0.1, 0.7, 1.1) if d < 3 else (0.3, 0.6), repeat=d):
                with ctx.op("with_bounded_weighted_norm", d, p, m, w, sig="with_bounded_weighted_norm/real"):
                    top = [int(m / v + 1.5) for v in w]
                    want = {i for i in itertools.product(*[range(n + 1) for n in top]) if pnorm(i, p, w) <= m + e}
                    isset(ctx, MI.with_bounded_weighted_norm(d, p, m, list(w)), want, d, "with_bounded_weighted_norm/real")
        with ctx.op("hyperbolic_cross_set", d, m, sig="hyperbolic_cross_set/real"):
            isset(ctx, MI.hyperbolic_cross_set(d, m), brute(d, 4, lambda i: np.prod([v + 1 for v in i]) <= m + 1 + e), d,
                  "hyperbolic_cross_set/real")
    for b in itertools.product((0, 1, 2), repeat=d):
        for k in range(1, d + 1):
            with ctx.op("low_order_interactions", d, b, k, sig="low_order_interactions/list"):
                isset(ctx, MI.low_order_interactions(d, list(b), k),
                      brute(d, 2, lambda i: sum(v > 0 for v in i) <= k and all(v <= u for v, u in zip(i, b))), d,
                      "low_order_interactions/list")


def fro(ranges):
    """product in column-major order (first index fastest)"""
    return [t[::-1] for t in itertools.product(*[list(r) for r in ranges[::-1]])]


def run_product(case, ctx):
    ctx.trace()
    for d in (1, 2, 3, 4):
        for m in itertools.product((0, 1, 2), repeat=d):
            for m0 in (0, 1):
                if min(m) < m0:
                    continue
                for arg in (list(m), np.array(m)):
                    with ctx.op("bounded_by", m, m0, pure=[arg], sig="bounded_by"):
                        w = fro([range(m0, v + 1) for v in m])
                        isset(ctx, MI.bounded_by(arg, m0), w, d, "bounded_by", w)
    sets = ([0], [2, 0], [1, 2, 3])
    for d in (1, 2, 3):
        for L in itertools.product(sets, repeat=d):
            for A in ([list(v) for v in L], [np.array(v) for v in L]):
                with ctx.op("product_set", L, pure=[A], sig="product_set"):
                    w = fro(L)
                    isset(ctx, MI.product_set(A), w, d, "product_set", w)
        for L in sets:
            for A in (list(L), np.array(L), [list(L)], [np.array(L)]):
                with ctx.op("product_set", A, d, pure=[A], sig="product_set/d"):
                    w = fro([L] * d)
                    isset(ctx, MI.product_set(A, d), w, d, "product_set/d", w)
    a, b = MI(np.array([[0, 1], [2, 0]])), MI(np.array([[3], [1], [0]]))
    L = [a, b, [5, 6]]
    with ctx.op("product_set/sets", pure=[a, b, L]):
        w = [tuple(r) + tuple(s) + (t,) for t in (5, 6) for s in rows(b) for r in rows(a)]
        isset(ctx, MI.product_set(L), w, 4, "product_set/sets", w)


def run_subind(case, ctx):
    for d in (1, 2, 3):
        for s in itertools.product((1, 2, 3), repeat=d):
            n = int(np.prod(s))
            ctx.trace()
            for sel in [list(range(n)), list(range(n))[::-1]] + [[k] for k in range(n)] + [[n - 1, 0]]:
                with ctx.op("ind2sub", s, sel, pure=[sel], sig="ind2sub"):
                    x = MI.ind2sub(list(s), sel)
                    w = [tuple(int(v) for v in np.unravel_index(k, s, order="F")) for k in sel]
                    isset(ctx, x, w, d, "ind2sub", w)
                    ctx.same([int(v) for v in x.sub2ind(list(s))], sel, "sub2ind")
