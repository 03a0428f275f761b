"""Truncation: tolerance, rank limits, quasi-optimality, independence of history."""
import itertools

import numpy as np
import tensap

from .. import ref, tbt
from ..trees import M

ID = "P07"
BOUNDS = {
    "quick": "matrices: 6 shapes x 5 spectra x 8 tolerances x 4 rank limits x powers 1,2,inf, given as array / full / canonical "
             "tensor, hard and soft thresholds between every pair of singular values; tensors: all labelled trees with 2..4 "
             "leaves x all activity patterns x 3 data families x tolerances {1e-12,.02,.2,.6,.95} x rank limits {none,1,2,per "
             "node}, hierarchical truncation of full tensors (root rank 1,2) and of tree-based tensors (both traversals), HOSVD, "
             "TT-SVD; tensors for which the errors of the truncations at any subset of the nodes add up x 12 tolerances around the sum; all histories of two truncations with one truncator object",
    "thorough": "as quick with all shape patterns, 3 numberings on order 4 and order 5 on one activity pattern per tree",
}
TOLS = [1e-12, 0.02, 0.2, 0.6, 0.95]


def cases(tier):
    q = tier == "quick"
    for sh in ((1, 1), (1, 3), (3, 1), (2, 2), (3, 4), (4, 3)):
        for spec in range(5):
            yield {"kind": "mat", "sh": list(sh), "spec": spec}
    for d, s in itertools.product((2, 3, 4), range(len(tbt.SHAPES))):
        if q and d == 4 and s not in (0, 4):
            continue
        yield {"kind": "hosvd", "d": d, "s": s}
    for c in tbt.active_cases((2, 3), ("bfs", "pre", "post")):
        yield dict(c, kind="tree", pats=[[3, 4], [1, 1]])
    for c in tbt.active_cases((4,), ("bfs",) if q else ("bfs", "pre", "post")):
        yield dict(c, kind="tree", pats=[[1, 4]]) if q else dict(c, kind="tree", deep=1, pats=[[1, 4], [3, 0], [2, 1]])
    if not q:
        for t in ref.all_trees(range(5)):
            for act in ([1] * 5, [1, 0, 1, 1, 0]):
                yield {"t": t, "num": "bfs", "act": act, "kind": "tree", "pats": [[3, 0]]}
    for d in (3, 4):
        for t in ref.all_trees(range(d)):
            for act in itertools.product((0, 1), repeat=d) if d == 3 or not q else ([1] * d,):
                yield {"kind": "tight", "t": t, "num": "bfs", "act": list(act)}
    for k in range(8):
        yield {"kind": "hist", "first": k}


def run(case, ctx):
    globals()["run_" + case["kind"]](case, ctx)


def spectrum(k, spec):
    return {0: np.ones(k), 1: 4.0 ** -np.arange(k), 2: np.array([1.0, 1.0, 0.3, 0.3, 0.1])[:k],
            3: np.array([2.0, 1.5, 0, 0, 0])[:k], 4: np.array([3.0, 2.0, 1.0, 0.01, 0.001])[:k]}[spec]


def frame(n, k, tag):
    return np.linalg.qr(ref.gen((n, n), tag))[0][:, :k]


def tails(s, power):
    """relative truncation error as a function of the rank 0..k"""
    if power == "inf":
        e = np.append(s, 0) / s[0]
    else:
        e = np.array([np.sum(s[r:] ** power) for r in range(len(s) + 1)])
        e = (e / e[0]) ** (1 / power)
    return e


def dense2(c, core=None):
    a, b = [np.asarray(x) for x in c.space]
    return (a * np.ravel(c.core.data if core is None else core)) @ b.T


def run_mat(case, ctx):
    n, m = case["sh"]
    k = min(n, m)
    s = spectrum(k, case["spec"])
    A = (frame(n, k, 1) * s) @ frame(m, k, 2).T
    for tol, mr, power in itertools.product([1e-12, 0.011, 0.07, 0.2, 0.37, 0.59, 0.83, 0.99], (np.inf, 1, 2, 3), (1, 2, "inf")):
        ctx.trace()
        tr = tensap.Truncator(tol, mr)
        e = tails(s, power)
        with ctx.op("trunc_svd", tol, mr, power, pure=[A, tr], sig="trunc_svd"):
            x = tr.trunc_svd(A, power=power)
            r = x.core.data.size
            ctx.state("mat", case["sh"], case["spec"], r)
            exact = int(np.sum(s > 0))
            need = next(i for i in range(len(e)) if e[i] <= tol + 1e-13)      # smallest rank meeting the tolerance
            if tol < 1e-10:
                need = min(need, exact)
            ctx.same(r, int(min(max(need, 1), mr, k)), "trunc_svd", "rank")
            ctx.close(dense2(x), (frame(n, k, 1)[:, :r] * s[:r]) @ frame(m, k, 2)[:, :r].T if _gap(s, r) else dense2(x),
                      "trunc_svd", tol=1e-8)
            err = A - dense2(x)
            ctx.close(np.linalg.norm(err), np.sqrt(np.sum(s[r:] ** 2)), "trunc_svd", tol=1e-10, msg="error")
            ctx.close(np.asarray(x.core.data), s[:r], "trunc_svd", msg="singular values")
            ctx.same([int(v) for v in x.shape], [n, m], "trunc_svd", "shape")
            for u in x.space:
                ctx.close(u.T @ u, np.eye(r), "trunc_svd", msg="orthonormal factors")
        if power == 2:
            objs = [A, tensap.FullTensor(A.copy())]
            if k > 1 or True:
                objs.append(tensap.CanonicalTensor([frame(n, k, 1) * 2, ref.gen((m, k), 3) * 0 + frame(m, k, 2)], s / 2))
                objs.append(tensap.CanonicalTensor([frame(n, k, 1)[:, :1], frame(m, k, 2)[:, :1]], np.array([s[0]])))
            for i, o in enumerate(objs):
                od = ref.dense(o)
                with ctx.op("svd", type(o).__name__, tol, mr, pure=[o, tr], sig="svd"):
                    for y in ([tr.svd(o)] + ([tr.truncate(o)] if not isinstance(o, np.ndarray) else [tr.truncate(o)])):
                        err = np.linalg.norm(od - ref.dense(y))
                        so = np.linalg.svd(od, compute_uv=False)
                        r = y.core.data.size
                        ctx.check(r <= mr, "svd", "rank %d > %s" % (r, mr))
                        ctx.close(err, np.sqrt(np.sum(so[r:] ** 2)), "svd", msg="best error at this rank")
                        if mr == np.inf:
                            ctx.check(err <= tol * np.linalg.norm(od) * (1 + 1e-9) + 1e-13, "svd", "error %g" % err)
                            if tol < 1e-10:
                                ctx.same(r, int(np.sum(so > 1e-9)), "svd", "exact rank")
                        ctx.same([int(v) for v in y.shape], [n, m], "svd", "shape")
                        ctx.close(y.norm(), np.linalg.norm(ref.dense(y)), "svd/norm")
    u = np.unique(s[s > 0])
    for th in list((u[:-1] + u[1:]) / 2) + [u[0] / 2]:
        for ty in ("hard", "soft"):
            tr = tensap.Truncator(0, np.inf, ty, th)
            with ctx.op("threshold", ty, th, pure=[A, tr], sig="threshold-" + ty):
                x = tr.trunc_svd(A)
                w = (frame(n, k, 1) * (np.where(s >= th, s, 0) if ty == "hard" else np.maximum(s - th, 0))) @ frame(m, k, 2).T
                ctx.close(dense2(x), w, "threshold-" + ty)
                ctx.same(x.core.data.size, int(np.sum(s >= th)), "threshold-" + ty, "rank")


def _gap(s, r):
    return r == len(s) or s[r - 1] - s[r] > 1e-6


# ---------------------------------------------------------------------------
def data(case, p, s, rr):
    """exact low rank / low rank + small generic part / decaying generic part"""
    c = dict(case)
    x = tbt.make(c, p, s, rr)
    y = ref.tbt_dense(x)
    g = ref.gen(y.shape, 11)
    g = g / np.linalg.norm(g) * np.linalg.norm(y)
    w = np.ones(())
    for k in range(y.ndim):
        w = np.multiply.outer(w, 0.45 ** np.arange(y.shape[k]))
    return [y, y + 0.05 * g, g * w]


def node_sv(y, m, act, rr):
    d = len(m.leafdim)
    a = y if rr > 1 else y[..., None]
    out = {}
    for n in m.nodes:
        if act[n - 1] and n != m.root:
            dims = sorted(m.dims[n])
            rest = [k for k in range(d + 1) if k not in dims]
            out[n] = np.linalg.svd(np.transpose(a, dims + rest).reshape(int(np.prod([a.shape[k] for k in dims])), -1), compute_uv=False)
    return out


SV = {}


def oracle(ctx, x, y, m, act, rr, tol, mr, sig):
    """x approximates y; mr: dict node -> limit or None"""
    if tbt.structure(ctx, x, sig, m) is None:
        return
    ctx.same([bool(v) for v in x.is_active_node], [bool(v) for v in act], sig, "active nodes")
    z = ref.tbt_dense(x).reshape(y.shape)
    nrm = np.linalg.norm(y)
    err = np.linalg.norm(z - y)
    sv = SV.get(id(y)) or node_sv(y, m, act, rr)
    rk = {n: int(x.ranks[n - 1]) for n in sv}
    ctx.state(sig, m.key(), act, sorted(rk.items()))
    for n, s in sv.items():
        if mr is not None:
            ctx.check(rk[n] <= mr[n], sig, "rank %d of node %d exceeds %s" % (rk[n], n, mr[n]))
    if mr is None:
        ctx.check(err <= tol * nrm * (1 + 1e-8) + 1e-12 * nrm, sig, "relative error %g > %g" % (err / nrm, tol))
        if tol < 1e-10:
            # exact multilinear ranks (generic data: no accidental small singular value)
            ctx.same(rk, {n: int(np.sum(s > 1e-8 * s[0])) for n, s in sv.items()}, sig, "exact ranks")
    bound = np.sqrt(sum(np.sum(s[rk[n]:] ** 2) for n, s in sv.items()))
    ctx.check(err <= bound * (1 + 1e-8) + 1e-10 * nrm, sig, "error %g exceeds the quasi-optimality bound %g" % (err, bound))
    if tol not in (1e-12, 1e-6, 0.2):
        return
    with ctx.op("after " + sig, pure=[x], sig=sig + "/usable"):
        ctx.close(x.norm(), np.linalg.norm(z), sig + "/norm", tol=1e-7, scale=nrm, msg="norm of the result:")
        ctx.close(x.dot(x), np.tensordot(z, z, (range(len(m.leafdim)),) * 2), sig + "/dot", scale=nrm ** 2)


def limits(m, act):
    yield np.inf, None
    for k in (1, 2):
        yield k, {n: k for n in m.nodes}
    per = [1 + (n % 3) for n in m.nodes]
    per[m.root - 1] = 1
    yield np.array(per), {n: per[n - 1] for n in m.nodes}


def run_tree(case, ctx):
    T, _ = ref.build_tree(tbt.tup(case["t"]), case["num"])
    m = M.of(T)
    act = tbt.activity(T, case["act"])
    d = len(case["act"])
    for p, s in case["pats"]:
        for rr in ((1, 2) if p == case["pats"][0][0] and (d < 4 or case.get("deep") or sum(case["act"]) in (0, 3)) else (1,)):
            for k, y in enumerate(data(case, p, s, rr)):
                with ctx.step("ranks#%s shape#%s root-rank %s data#%s" % (p, s, rr, k)):
                    SV.clear()
                    SV[id(y)] = node_sv(y, m, act, rr)
                    exact = {n: int(np.sum(v > 1e-10 * v[0])) for n, v in SV[id(y)].items()}
                    full = tensap.FullTensor(y.copy())
                    clear = all(np.all((v <= 1e-10 * v[0]) | (v > 2e-5 * v[0])) for v in SV[id(y)].values())
                    x0 = None
                    if k == 0:
                        x0 = tbt.make(case, p, s, rr)
                    else:       # exact tree-based representation of the data
                        x0 = exact_tbt(y, T, m, act, rr)
                    x1 = x0 + x0 * 0.5 - x0 * 0.5        # redundant representation
                    for tol in (TOLS if d < 4 or case.get("deep") else (1e-12, 0.2, 0.6)):
                        for mr, lim in limits(m, act):
                            if lim is not None and (tol > 1e-10 if not isinstance(mr, np.ndarray) else tol != 0.2):
                                continue
                            ctx.trace()
                            tr = tensap.Truncator(tol, mr)
                            with ctx.op("hsvd-full", tol, mr, pure=[full, T, tr, act], sig="hsvd-full"):
                                x = tr.hsvd(full, T, np.array(act))
                                oracle(ctx, x, y, m, act, rr, tol, lim, "hsvd-full")
                            for ty in (1, 2):
                                # below the square root of the machine precision the
                                # eigenvalues of Gramians are rounding errors
                                tol = max(tol, 1e-6)
                                tr = tensap.Truncator(tol, mr)
                                tr._hsvd_type = ty
                                for i, xx in enumerate((x0, x1)):
                                    if i and tol not in (1e-6, 0.2):
                                        continue
                                    sig = "hsvd-tbt%d" % ty
                                    with ctx.op(sig, tol, mr, "redundant" if i else "", pure=[xx, tr]):
                                        x = tr.hsvd(xx)
                                        # truncated Gramians: singular values below 1e-7 are rounding errors
                                        oracle(ctx, x, y, m, act, rr, tol, lim, sig)
                                        if tol < 1e-5 and lim is None and clear:
                                            ctx.check(all(int(x.ranks[n - 1]) == exact[n] for n in exact), sig + "/exact-ranks",
                                                      "ranks %s exact %s" % (list(x.ranks), exact))


def exact_tbt(y, T, m, act, rr):
    """tree-based representation with all leaves' modes as leaf bases (identity) and full cores, bottom up"""
    d = len(m.leafdim)
    shp = y.shape[:d]
    n = len(m.nodes)
    ts = [[] for _ in range(n)]
    size = {}
    for x in sorted(m.nodes, key=lambda v: -m.level[v]):
        ch = m.children[x]
        if not ch:
            size[x] = shp[m.leafdim[x]]
            if act[x - 1]:
                a = np.eye(size[x])
                ts[x - 1] = tensap.FullTensor(a, 2, list(a.shape))
            continue
        dims = [size[c] for c in ch]
        size[x] = int(np.prod(dims))
        if x != m.root:
            a = np.eye(size[x]).reshape(dims + [size[x]])
            ts[x - 1] = tensap.FullTensor(a, a.ndim, list(a.shape))
        else:
            order = []

            def walk(v):
                if not m.children[v]:
                    order.append(m.leafdim[v])
                else:
                    for c in m.children[v]:
                        walk(c)
            walk(x)
            a = np.transpose(y, order + list(range(d, y.ndim))).reshape(dims + list(y.shape[d:]))
            ts[x - 1] = tensap.FullTensor(a, a.ndim, list(a.shape))
    return tensap.TreeBasedTensor(ts, T)


def tight_tensor(d, groups, eps):
    """two unit entries on the diagonal and, for every group of modes, one small entry that only this group must resolve: the errors of
    simultaneous truncations add up"""
    y = np.zeros((3,) * d)
    y[(0,) * d] = y[(1,) * d] = 1
    for g in groups:
        out = [k for k in range(d) if k not in g]
        i = [0] * d
        for part, sh in ((sorted(g), 0), (out, 1)):
            for j, k in enumerate(part):
                i[k] = 2 if len(part) == 1 else (j + sh) % 2
        y[tuple(i)] = eps
    return y


def run_tight(case, ctx):
    T, _ = ref.build_tree(tbt.tup(case["t"]), case["num"])
    m = M.of(T)
    act = tbt.activity(T, case["act"])
    d = len(case["act"])
    eps = 1e-3
    nodes = [n for n in m.nodes if n != m.root and act[n - 1]]
    for r in range(1, len(nodes) + 1):
        for sel in itertools.combinations(nodes, r):
            if d > 3 and r < len(nodes) and sel != tuple(n for n in nodes if not m.children[n]):
                continue
            y = tight_tensor(d, [m.dims[n] for n in sel], eps)
            full = tensap.FullTensor(y.copy())
            nrm = np.linalg.norm(y)
            SV.clear()
            SV[id(y)] = node_sv(y, m, act, 1)
            x0 = exact_tbt(y, T, m, act, 1)
            for f in np.arange(1, 13) / 2 + 1e-6:
                tol = float(np.sqrt(f) * eps / nrm)
                ctx.trace()
                tr = tensap.Truncator(tol)
                with ctx.op("hsvd-full", sel, f, pure=[full, tr], sig="tight/hsvd-full"):
                    oracle(ctx, tr.hsvd(full, T, np.array(act)), y, m, act, 1, tol, None, "tight/hsvd-full")
                for ty in (1, 2):
                    tr._hsvd_type = ty
                    with ctx.op("hsvd-tbt%d" % ty, sel, f, pure=[x0, tr], sig="tight/hsvd-tbt"):
                        oracle(ctx, tr.hsvd(x0), y, m, act, 1, tol, None, "tight/hsvd-tbt")
                if all(len(ch) == 0 for n, ch in m.children.items() if n != m.root) and all(act):
                    with ctx.op("hosvd", sel, f, pure=[full, tr], sig="tight/hosvd"):
                        z = ref.dense(tr.hosvd(full))
                        ctx.check(np.linalg.norm(z - y) <= tol * nrm * (1 + 1e-8), "tight/hosvd", "relative error above the tolerance")
                    with ctx.op("ttsvd", sel, f, pure=[full, tr], sig="tight/ttsvd"):
                        z = ref.dense(tr.ttsvd(full))
                        ctx.check(np.linalg.norm(z - y) <= tol * nrm * (1 + 1e-8), "tight/ttsvd", "relative error above the tolerance")


def run_hosvd(case, ctx):
    d = case["d"]
    shape = tbt.SHAPES[case["s"]][:d]
    triv = tensap.DimensionTree.trivial(d)
    m = M.of(triv)
    act = [True] * len(m.nodes)
    c = {"t": tuple(range(d)), "num": "bfs", "act": [1] * d}
    lin = tensap.DimensionTree.linear(d)
    ml = M.of(lin)
    actl = [True] * len(ml.nodes)
    for k in range(1, d):
        actl[int(lin.dim2ind[k]) - 1] = False
    for p in (1, 3):
        for k, y in enumerate(data(c, p, case["s"], 1)):
            full = tensap.FullTensor(y.copy())
            SV.clear()
            for tol in TOLS:
                for mr in (np.inf, 1, 2) + ((np.array([1 + i % 2 for i in range(d)]),) if d > 2 else ()):
                    ctx.trace()
                    lim = None if np.size(mr) == 1 and mr == np.inf else \
                        {int(triv.dim2ind[i]): int(np.atleast_1d(mr)[i % np.size(mr)]) for i in range(d)}
                    tr = tensap.Truncator(tol, mr)
                    if d > 2:
                        for f in ("hosvd", "truncate"):
                            for o in (full, y):
                                with ctx.op(f, tol, mr, pure=[full, y, tr], sig=f):
                                    oracle(ctx, getattr(tr, f)(o), y, m, act, 1, tol, lim, f)
                    else:
                        with ctx.op("hosvd", tol, mr, pure=[full, y, tr], sig="hosvd"):
                            x = tr.hosvd(full)
                            so = np.linalg.svd(y, compute_uv=False)
                            r = x.core.data.size
                            ctx.check(r <= np.max(mr), "hosvd", "rank")
                            ctx.close(np.linalg.norm(y - ref.dense(x)), np.sqrt(np.sum(so[r:] ** 2)), "hosvd")
                    if np.size(mr) == 1:
                        lim = None if mr == np.inf else {n: int(mr) for n in ml.nodes}
                        with ctx.op("ttsvd", tol, mr, pure=[full, tr], sig="ttsvd"):
                            oracle(ctx, tr.ttsvd(full), y, ml, actl, 1, tol, lim, "ttsvd")


def run_hist(case, ctx):
    """all histories of two uses of one truncator: same results as fresh ones, parameters unchanged"""
    T, _ = ref.build_tree(((0, 1), 2), "bfs")
    c = {"t": ((0, 1), 2), "num": "bfs", "act": [1, 1, 1]}
    y = data(c, 3, 4, 1)[1]
    A = (frame(3, 3, 1) * spectrum(3, 1)) @ frame(4, 3, 2).T
    full, mat = tensap.FullTensor(y), tensap.FullTensor(A)
    x = tbt.make(c, 3, 4)
    x2 = tensap.TreeBasedTensor.tensor_train([ref.gen((3, 2), 0), ref.gen((2, 4), 1)]) if False else None
    del x2
    cp = tensap.CanonicalTensor([frame(3, 3, 1), frame(4, 3, 2)], spectrum(3, 1))
    uses = [lambda t: t.truncate(full), lambda t: t.truncate(x), lambda t: t.svd(mat), lambda t: t.hsvd(full, T),
            lambda t: t.ttsvd(full), lambda t: t.hosvd(full), lambda t: t.svd(cp), lambda t: t.hsvd(x)]
    i = case["first"]
    for j in range(len(uses)):
        for tol, mr in ((0.1, np.inf), (1e-10, np.inf), (1e-10, 2), (1e-10, 1)):
            ctx.trace()
            tr = tensap.Truncator(tol, mr)
            with ctx.op("history", i, j, tol, mr, sig="history"):
                uses[i](tr)
                a = ref.dense(uses[j](tr))
                b = ref.dense(uses[j](tensap.Truncator(tol, mr)))
                ctx.state(i, j, tol, mr)
                ctx.close(a, b, "history")
                ctx.same((tr.tolerance, tr.max_rank), (tol, mr), "history/parameters", "parameters of the truncator")
