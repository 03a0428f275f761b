"""Principal component tensor approximation: principal components, ranks, evaluations, interpolation, recovery."""
import contextlib
import io
import itertools

import numpy as np
import tensap

from .. import ref, rng, tbt

ID = "P25"
BOUNDS = {
    "quick": "principal components of one group: shapes (2,3), (3,2,2) and (2,2,2), every ordered group of dimensions, whole or partial index sets, two bases, 7 tolerances or ranks, sampling "
             "factors 1, 1.5 and 2, adaptive or not, every outcome of the sampling of one group differing in at most 2 indices from a base outcome (all outcomes when at most 64); "
             "approximations: every tree of order 2..3 with every choice of active leaves (order 4: four trees), Tucker, tensor train and components of every dimension, 3 rank patterns, "
             "prescribed ranks (scalar, per node) and precisions (scalar, per node), both subsamplings, every outcome of the sampling differing in at most one index from a base outcome; "
             "functions on polynomial bases on the same trees, default or given grids",
    "thorough": "as quick with order 4 for every tree, outcomes differing in at most 2 indices for trees of order up to 3",
}
ASSUMPTIONS = ["tensors and fibres are not zero", "subsampled bases are not singular (random subsampling)", "functions of order at least 2"]

SH = {2: (3, 2), 3: (2, 3, 3), 4: (2, 2, 3, 2)}


def cases(tier):
    q = tier == "quick"
    for sh in ((2, 3), (3, 2, 2), (2, 2, 2)):
        d = len(sh)
        for m in range(1, d):
            for al in itertools.permutations(range(d), m):
                for part in (0, 1):
                    for ad in (0, 1):
                        yield {"kind": "alpha", "sh": sh, "al": al, "part": part, "ad": ad}
    for c in tbt.active_cases((2, 3) if q else (2, 3, 4)):
        for p in (0, 1, 2):
            yield dict(c, kind="tree", p=p, dev=1 if q or len(ref.leaves(c["t"])) > 3 else 2)
    if q:
        for t in (((0, 1), (2, 3)), (((2, 0), 3), 1), (0, 3, (2, 1)), (3, 1, 0, 2)):
            for p in (1, 2):
                yield {"kind": "tree", "t": t, "num": "bfs", "act": [1, 1, 1, 1], "p": p, "dev": 1}
            yield {"kind": "tree", "t": t, "num": "dfs", "act": [0, 1, 1, 0], "p": 1, "dev": 1}
    for how in ("hopca", "tucker", "tt"):
        for sh in ((3, 2), (2, 3, 3), (2, 2, 3, 2)):
            for p in (0, 1, 2):
                yield {"kind": "named", "how": how, "sh": sh, "p": p}
                yield {"kind": "functional", "how": how, "sh": sh, "p": p}
    for c in tbt.active_cases((2, 3)):
        yield dict(c, kind="functional", how="tree", sh=SH[len(ref.leaves(c["t"]))], p=1)


def run(case, ctx):
    with np.errstate(all="ignore"), contextlib.redirect_stdout(io.StringIO()):
        globals()["run_" + case["kind"]](case, ctx)


class Entries:
    """the entries of a tensor, with the log of the requests"""
    def __init__(self, x):
        self.x, self.log = np.asarray(x), []

    def __call__(self, i):
        i = np.array(i)
        assert i.ndim == 2 and i.shape[1] == self.x.ndim, "indices of shape %s" % (i.shape,)
        assert np.all(i == np.round(i)) and np.all(i >= 0) and np.all(i < self.x.shape), "indices out of range"
        i = i.astype(int)
        self.log.append(i)
        return self.x[tuple(i.T)]

    def points(self):
        return np.vstack(self.log)


@contextlib.contextmanager
def outcome(choose, perms=None):
    """the outcome of every draw: a base index plus the deviation chosen"""
    count = itertools.count()

    def choice(a, size=None, replace=True, p=None):
        a = np.arange(a) if np.ndim(a) == 0 else np.array(a)
        n, c = len(a), next(count)
        if not replace:
            left, out = list(range(n)), []
            for _ in range(int(np.prod(size))):
                out.append(left.pop(choose(len(left))))
            return a[out]
        m = 1 if size is None else int(np.prod(size))
        v = [a[(j + (j // n if c % 2 else 0) + c + choose(n)) % n] for j in range(m)]
        return v[0] if size is None else np.array(v).reshape(size)
    with rng.patched(choice=choice):
        yield


def numrank(s, tol=1e-9):
    return int(np.sum(s > tol * s[0])) if len(s) and s[0] > 0 else 0


def components(ctx, pc, sv, A, tol, sig):
    """pc, sv are the dominant components of A for the rank or the tolerance given"""
    U, s, _ = np.linalg.svd(A, full_matrices=False)
    pc, sv = np.asarray(pc), np.diag(np.asarray(sv))
    r = pc.shape[1]
    ctx.close(pc.T @ pc, np.eye(r), sig, msg="orthonormal components", scale=1)
    ctx.close(sv, s[:r], sig, msg="singular values", scale=s[0])
    err = np.sqrt(np.sum((A - pc @ (pc.T @ A)) ** 2))
    ctx.close(err, np.sqrt(np.sum(s[r:] ** 2)), sig, msg="dominant components", scale=s[0], tol=1e-8)
    if tol >= 1:
        m = min(int(min(tol, 10 ** 6)), A.shape[0], A.shape[1])
        ctx.check(min(m, numrank(s)) <= r <= m, sig, "rank %d for a prescribed rank %s, singular values %s" % (r, tol, s))
    else:
        tail = np.sqrt(np.cumsum(s[::-1] ** 2)[::-1])
        tail = np.append(tail, 0)
        ctx.check(tail[r] <= tol * tail[0] * (1 + 1e-9) + 1e-14 * s[0], sig, "relative error %g over the tolerance %g" % (tail[r] / tail[0], tol))
        ctx.check(r <= 1 or tail[r - 1] > tol * tail[0] * (1 - 1e-9) - 1e-14 * s[0], sig, "rank %d larger than needed for the tolerance %g: %s" % (r, tol, s))


def generic(outs):
    """the samples span as many directions as there are components"""
    return all(o is None or numrank(np.diag(o["singular_values"])) == len(o["singular_values"]) for o in outs)


# -- one group of dimensions ---------------------------------------------------------
def run_alpha(case, ctx):
    sh, al = tuple(case["sh"]), list(case["al"])
    d = len(sh)
    na = [k for k in range(d) if k not in al]
    order = al + na
    full = np.array(list(itertools.product(*[range(sh[k]) for k in reversed(al)])))[:, ::-1]
    I = full[[0, 2]] if case["part"] and len(full) > 2 else full[::-1] if case["part"] else full
    m = len(I)
    for low in (0, 1):
        x = ref.gen(sh, 3) if not low else ref_low(sh)
        for b in range(2):
            B = np.eye(m) if b == 0 else ref.gen((m, m), 5) + 3 * np.eye(m)
            for tol in (1, 2, m, 7) + ((0.9, 0.3, 1e-10) if not case["ad"] else (0.3, 1e-10)):
                for fac in (1, 1.5, 2):
                    if b and fac != 1:
                        continue
                    N = int(np.ceil(fac * (m if tol < 1 else tol)))
                    sig = "alpha" + ("/adaptive" if case["ad"] and tol < 1 else "")
                    small = int(np.prod([sh[k] for k in na])) ** N <= 64
                    ch = ref.Choices(max_points=40, max_dev=None if small else 1 if N > 4 else 2)

                    def once(choose):
                        f = Entries(x)
                        s = tensap.TensorPrincipalComponentAnalysis()
                        s.pca_sampling_factor, s.pca_adaptive_sampling, s.display = fac, bool(case["ad"]), False
                        with ctx.op("alpha_principal_components", low, b, tol, fac, pure=[B, I, sh, al], sig=sig):
                            with outcome(choose):
                                pc, o = s.alpha_principal_components(f, list(sh), al if len(al) > 1 else al[0], tol, B, I)
                            P = f.points()
                            ctx.same(int(o["number_of_evaluations"]), len(P), sig, "number of evaluations")
                            ctx.same(np.asarray(o["samples"]).astype(int).tolist(), P[:, order].tolist(), sig, "samples")
                            K = len(P) // m
                            ctx.check(len(P) == K * m and (K == N or case["ad"] and tol < 1 and K <= N), sig, "%d samples, %d expected" % (K, N))
                            ctx.same(np.tile(I, (K, 1)).tolist(), P[:, al].tolist(), sig, "indices of the group")
                            ctx.same(np.repeat(P[::m][:, na], m, 0).tolist(), P[:, na].tolist(), sig, "indices of the complement")
                            A = np.linalg.solve(B, x[tuple(P.T)].reshape((m, K), order="F"))
                            components(ctx, pc, o["singular_values"], A, tol, sig)
                            if case["ad"] and tol < 1:       # stopped as soon as the samples are enough
                                for k in range(1, K + 1):
                                    s_ = np.linalg.svd(A[:, :k], compute_uv=False)
                                    t = np.append(np.sqrt(np.cumsum(s_[::-1] ** 2)[::-1]), 0)
                                    if np.min(np.abs(t / t[0] - tol)) < 1e-9 or np.any((s_ < 1e-12) & (s_ > 1e-18)):
                                        break                # too close to a tie for the stopping rule
                                    r = int(np.nonzero(t <= tol * t[0])[0][0])
                                    stop = s_[r - 1] < 1e-15 or r < np.ceil(k / fac)
                                    ctx.check(stop == (k < N and k == K) or k == N, sig, "%d samples, rank %d after %d samples" % (K, r, k))
                            ctx.state(sh, al, case["part"], case["ad"], low, b, tol, fac, P[::m][:, na].tolist())
                    for _ in ch.explore(once):
                        ctx.trace()


def ref_low(sh):
    x = ref.gen((sh[0],), 1)
    for k in range(1, len(sh)):
        x = np.multiply.outer(x, ref.gen((sh[k],), 1 + k))
    y = np.ones(1)
    for k in range(len(sh)):
        y = np.multiply.outer(y, ref.gen((sh[k],), 6 + k))
    return x + 0.5 * y[0]


# -- trees -----------------------------------------------------------------------
def pattern(T, act, sh, p):
    n = T.nb_nodes
    A = np.asarray(T.adjacency_matrix) != 0
    root = int(T.root) - 1
    dim = {int(v) - 1: k for k, v in enumerate(T.dim2ind)}
    r = [{0: 1, 1: 2, 2: 1 + (i + 1) % 2}[p] for i in range(n)]
    r[root] = 1

    def size(i):
        return sh[dim[i]] if i in dim and not act[i] else r[i]
    for _ in range(30):
        for i in range(n):
            if i != root:
                below = sh[dim[i]] if i in dim else int(np.prod([size(j) for j in np.nonzero(A[i])[0]]))
                par = int(np.nonzero(A[:, i])[0][0])
                above = r[par] * int(np.prod([size(j) for j in np.nonzero(A[par])[0] if j != i]))
                r[i] = min(r[i], below, above)
    return [x if a else 0 for x, a in zip(r, act)]


def alpha_ranks(x, T, act):
    d = x.ndim
    out = []
    for i in range(T.nb_nodes):
        g = sorted(int(v) for v in T.dims[i])
        m = np.transpose(x, g + [k for k in range(d) if k not in g]).reshape(int(np.prod([x.shape[k] for k in g])), -1)
        out.append(numrank(np.linalg.svd(m, compute_uv=False)) if act[i] else 0)
    return out


def options(T, act, sh, rank):
    """name, tol, max_rank, ranks prescribed per node (or None), factor, adaptive, subsampling"""
    n = T.nb_nodes
    root = int(T.root) - 1
    big = [max(1, v) for v in rank]
    yield "ranks", np.inf, np.array(big), big, 1, False, "eim"
    yield "ranks", np.inf, list(big), big, 2, False, "random"
    one = [1] * n
    yield "rank one", np.inf, 1, one, 1, False, "eim"
    yield "rank", np.inf, max(big), [max(big)] * n, 1, False, "eim"
    yield "rank of length one", [np.inf], [max(big)], [max(big)] * n, 1, False, "eim"
    yield "tolerance", 1e-8, np.inf, None, 1, False, "eim"
    yield "adaptive", 1e-8, np.inf, None, 1.2, True, "eim"
    yield "tolerances", np.full(n, 1e-8), np.inf, None, 1, False, "random"
    yield "rough tolerance", 0.3, np.inf, None, 1, False, "eim"
    t = np.full(n, 1e-8)
    t[1 if root != 1 else 0] = 0.4
    yield "different tolerances", list(t), np.inf, None, 1, False, "eim"


def solver(cls, tol, mx, fac, ad, sub=None):
    s = cls()
    s.tol, s.max_rank, s.pca_sampling_factor, s.pca_adaptive_sampling, s.display = tol, mx, fac, ad, False
    if sub is not None:
        s.subsampling = sub
    return s


def attributes(s):
    return [s.tol, s.max_rank, s.pca_sampling_factor, s.pca_adaptive_sampling]


def judge(ctx, t, o, f, x, T, act, limit, sig, exact=True):
    """structure, ranks, evaluations, interpolation, recovery"""
    m = tbt.structure(ctx, t, sig)
    if m is None:
        return
    ctx.same(ref.tree_key(t.tree), ref.tree_key(T), sig, "tree")
    ctx.same([bool(a) for a in t.is_active_node], [bool(a) for a in act], sig, "active nodes")
    ctx.same([int(v) for v in t.shape], list(x.shape), sig, "shape")
    P = f.points()
    ctx.same(int(o["number_of_evaluations"]), len(P), sig, "number of evaluations")
    true = alpha_ranks(x, T, act)
    root = int(T.root) - 1
    got = [int(v) for v in t.ranks]
    dims = [int(v) for v in T.dims[root]]
    S = np.asarray(o["samples"][root]).astype(int)
    ctx.same(sorted(map(tuple, f.log[-1].tolist())), sorted(tuple(int(v) for v in np.asarray(i)[[dims.index(k) for k in range(x.ndim)]]) for i in S), sig, "points of the interpolation")
    for i in range(T.nb_nodes):
        if limit is not None and act[i] and i != root:
            ctx.check(got[i] <= limit[i], sig, "rank %d of the node %d over %d" % (got[i], i + 1, limit[i]))
    y = ref.dense(t)
    I = f.log[-1]
    sc = np.max(np.abs(x))
    ctx.close(y[tuple(I.T)], x[tuple(I.T)], sig, msg="values at the points of the interpolation", scale=sc, tol=1e-7)
    if all(g == r for g, r in zip(got, true)) and generic(o["outputs"]):
        ctx.close(y, x, sig + "/recovery", msg="recovery", scale=sc, tol=1e-7)
        ctx.outcomes.add(("recovered", sig))
    else:
        ctx.outcomes.add(("other ranks", sig, tuple(got)))
    return got, true


def run_tree(case, ctx):
    T, _ = ref.build_tree(tbt.tup(case["t"]), case["num"])
    sh = SH[len(ref.leaves(tbt.tup(case["t"])))]
    act = tbt.activity(T, case["act"])
    rank = pattern(T, act, sh, case["p"])
    x = ref.dense(ref.make_tbt(T, list(sh), rank, act, 5))
    for name, tol, mx, limit, fac, ad, sub in options(T, act, sh, rank):
        sig = "tree/" + name

        def once(choose):
            f = Entries(x)
            s = solver(tensap.TensorPrincipalComponentAnalysis, tol, mx, fac, ad, sub)
            with ctx.op("tree_based_approximation", name, pure=[attributes(s), sh, act], sig=sig):
                try:
                    with outcome(choose):
                        t, o = s.tree_based_approximation(f, list(sh), T, None if all(act) else act)
                except np.linalg.LinAlgError:
                    if sub == "random":
                        return ctx.state("singular", case["t"], name)
                    raise
                if sub == "random" and any(b is not None and np.linalg.cond(b) > 1e8 for b in o["alpha_basis"]):
                    return ctx.state("singular", case["t"], name)
                judge(ctx, t, o, f, x, T, act, limit, sig)
                ctx.state(case["t"], case["num"], case["act"], case["p"], name, tuple(map(tuple, f.points().tolist())))
        for _ in ref.Choices(max_points=60, max_dev=case["dev"]).explore(once):
            ctx.trace()


# -- Tucker, tensor train, components of every dimension -----------------------------------
def named_setting(how, sh, p):
    d = len(sh)
    T = tensap.DimensionTree.linear(d) if how == "tt" else tensap.DimensionTree.trivial(d)
    act = [True] * T.nb_nodes
    if how == "tt":
        for k in range(1, d):
            act[int(T.dim2ind[k]) - 1] = False
    rank = pattern(T, act, sh, p)
    # position k of the ranks given by the user -> node
    nodes = [int(T.dim2ind[k]) - 1 for k in range(d)] if how != "tt" else \
        [next(i for i in range(T.nb_nodes) if sorted(int(v) for v in T.dims[i]) == list(range(k + 1)) and act[i]) for k in range(d - 1)]
    return T, act, rank, nodes


def named_options(nodes, rank):
    r = [rank[i] for i in nodes]
    yield "ranks", np.inf, np.array(r), r, 1, False
    yield "ranks", np.inf, list(r), r, 2, False
    yield "rank", np.inf, max(r), [max(r)] * len(r), 1, False
    yield "mixed ranks", np.inf, np.array([1] + r[1:]), [1] + r[1:], 1, False
    yield "tolerance", 1e-8, np.inf, None, 1, False
    yield "tolerances", np.array([1e-8] * len(r)), np.inf, None, 1, False
    yield "different tolerances", [0.4] + [1e-8] * (len(r) - 1), np.inf, None, 1, False
    yield "adaptive", 1e-8, np.inf, None, 1.2, True


def run_named(case, ctx):
    how, sh = case["how"], tuple(case["sh"])
    T, act, rank, nodes = named_setting(how, sh, case["p"])
    x = ref.dense(ref.make_tbt(T, list(sh), rank, act, 5))
    for name, tol, mx, limit, fac, ad in named_options(nodes, rank):
        sig = how + "/" + name

        def once(choose):
            f = Entries(x)
            s = solver(tensap.TensorPrincipalComponentAnalysis, tol, mx, fac, ad)
            with ctx.op(how, name, pure=[attributes(s), sh], sig=sig):
                with outcome(choose):
                    t, o = getattr(s, how if how == "hopca" else how + "_approximation")(f, list(sh))
                if how == "hopca":
                    judge_hopca(ctx, t, o, f, x, tol, limit, sig)
                else:
                    lim = None if limit is None else [limit[nodes.index(i)] if i in nodes else 10 ** 9 for i in range(T.nb_nodes)]
                    judge(ctx, t, o, f, x, T, act, lim, sig)
                    for k, i in enumerate(nodes):     # the components of the leaves follow the tolerance or the rank of their position
                        if len(T.dims[i]) == 1:
                            q = o["outputs"][i]
                            P = np.asarray(q["samples"]).astype(int)
                            j = int(T.dims[i][0])
                            od = [j] + [v for v in range(len(sh)) if v != j]
                            A = x[tuple(P[:, [od.index(v) for v in range(len(sh))]].T)].reshape((sh[j], -1), order="F")
                            tk = limit[k] if limit is not None else np.ravel(tol)[k] if np.ndim(tol) else tol / np.sqrt(np.count_nonzero(act) - 1)
                            components(ctx, t.tensors[i].data, q["singular_values"], A, tk, sig)
                ctx.state(how, sh, case["p"], name, tuple(map(tuple, f.points().tolist())))
        for _ in ref.Choices(max_points=60, max_dev=1).explore(once):
            ctx.trace()


def judge_hopca(ctx, pcs, outs, f, x, tol, limit, sig):
    d = x.ndim
    ctx.same(len(pcs), d, sig, "one set of components per dimension")
    tot = 0
    for k in range(d):
        P = np.asarray(outs[k]["samples"]).astype(int)
        od = [k] + [v for v in range(d) if v != k]
        A = x[tuple(P[:, [od.index(v) for v in range(d)]].T)].reshape((x.shape[k], -1), order="F")
        components(ctx, pcs[k], outs[k]["singular_values"], A, limit[k] if limit is not None else np.ravel(tol)[k] if np.ndim(tol) else tol, sig)
        tot += int(outs[k]["number_of_evaluations"])
    ctx.same(tot, len(f.points()), sig, "number of evaluations")


# -- functions -------------------------------------------------------------------------
class Values:
    def __init__(self, c, bases):
        self.c, self.bases, self.log = c, bases, []

    def __call__(self, X):
        X = np.array(X, dtype=float)
        self.log.append(X)
        H = [np.asarray(h) for h in self.bases.eval(X)]
        out = self.c[None]
        for h in H:
            out = np.einsum("na,na...->n...", h, np.broadcast_to(out, (len(h),) + out.shape[1:]))
        return out


def run_functional(case, ctx):
    how, sh = case["how"], tuple(case["sh"])
    if how == "tree":
        T, _ = ref.build_tree(tbt.tup(case["t"]), case["num"])
        act = tbt.activity(T, case["act"])
        rank = pattern(T, act, sh, case["p"])
        opts = [(n, t, m, lim, fac, ad) for n, t, m, lim, fac, ad, sub in options(T, act, sh, rank)]
    else:
        T, act, rank, nodes = named_setting(how, sh, case["p"])
        opts = list(named_options(nodes, rank))
    c = ref.dense(ref.make_tbt(T, list(sh), rank, act, 5))
    bases = tensap.FunctionalBases([tensap.PolynomialFunctionalBasis(tensap.LegendrePolynomials() if k % 2 == 0 else tensap.HermitePolynomials(), range(n)) for k, n in enumerate(sh)])
    Xt = np.column_stack([np.linspace(-0.8, 0.7, 7) if k % 2 == 0 else np.linspace(-1.4, 1.1, 7)[::-1] for k in range(len(sh))])
    true = alpha_ranks(c, T, act)
    for given in (False, True):
        grid = None if not given else [np.linspace(-0.9, 0.95, n + 2).reshape(-1, 1) for n in sh]
        for name, tol, mx, limit, fac, ad in opts:
            sig = "functional/" + how + "/" + name

            def once(choose):
                f = Values(c, bases)
                s = solver(tensap.FunctionalTensorPrincipalComponentAnalysis, tol, mx, fac, ad)
                s.bases, s.grid = bases, grid
                with ctx.op(how, name, given, pure=[attributes(s), bases, grid], sig=sig):
                    with outcome(choose):
                        a = (T, None if all(act) else act) if how == "tree" else ()
                        t, o = getattr(s, how if how == "hopca" else "tree_based_approximation" if how == "tree" else how + "_approximation")(f, *a)
                    if how == "hopca":
                        ctx.same(len(t), len(sh), sig, "one basis per dimension")
                        n = sum(int(q["number_of_evaluations"]) for q in o)
                        for k, b in enumerate(t):
                            q = o[k]
                            ctx.check(isinstance(b, tensap.SubFunctionalBasis), sig, "basis")
                            r = alpha_ranks(c, tensap.DimensionTree.trivial(len(sh)), [True] * (len(sh) + 1))[int(tensap.DimensionTree.trivial(len(sh)).dim2ind[k]) - 1]
                            a = np.asarray(b.basis)
                            if a.shape[1] == r and generic([q]):       # the span is that of the function
                                M = np.moveaxis(c, k, 0).reshape(sh[k], -1)
                                ctx.close(a @ np.linalg.lstsq(a, M, rcond=None)[0], M, sig, msg="span", scale=np.max(np.abs(M)), tol=1e-7)
                            if limit is not None:
                                ctx.check(a.shape[1] <= limit[k], sig, "rank %d" % a.shape[1])
                        ctx.same(n, sum(len(v) for v in f.log), sig, "number of evaluations")
                    else:
                        got = [int(v) for v in t.tensor.ranks]
                        tbt.structure(ctx, t.tensor, sig)
                        ctx.same(int(o["number_of_evaluations"]), sum(len(v) for v in f.log), sig, "number of evaluations")
                        z = np.ravel(t.eval(f.log[-1]))
                        w = np.ravel(Values(c, bases)(f.log[-1]))
                        ctx.close(z, w, sig, msg="values at the points of the interpolation", scale=np.max(np.abs(w)) + np.max(np.abs(c)), tol=1e-7)
                        if got == true and generic(o["outputs"]):
                            ctx.close(ref.dense(t.tensor), c, sig + "/recovery", msg="coefficients", scale=np.max(np.abs(c)), tol=1e-6)
                            w = np.ravel(Values(c, bases)(Xt))
                            ctx.close(np.ravel(t.eval(Xt)), w, sig + "/recovery", msg="values", scale=np.max(np.abs(w)), tol=1e-6)
                            ctx.outcomes.add(("recovered", sig))
                    ctx.state(how, sh, case["p"], name, given, str(case.get("t")), str(case.get("act")), [int(len(v)) for v in f.log], tuple(np.round(np.ravel(f.log[0]), 6)))
            for _ in ref.Choices(max_points=8, max_dev=1).explore(once):
                ctx.trace()
