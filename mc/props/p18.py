"""Tensor-product bases: values, derivatives, Gram matrices, means, factor selection, against products of the factors."""
import itertools

import numpy as np
import tensap

from .. import ref, rng

ID = "P18"
BOUNDS = {
    "quick": "every list of 1..3 factors over 9 kinds of univariate (and one bivariate) bases with 1..3 functions (3 factors: over 5 kinds); every "
             "non-empty subset of the index box (boxes up to 8 indices, also in reversed order; boxes of 9 or more: downward closed sets); every ordered "
             "subset of the factors for evaluation, means, Gram matrices, random evaluation; every chain of 2 operations among keep / remove / transpose "
             "with all arguments on 3 factors; derivative orders 0..2 per factor; two 2-dimensional sub-spaces of each sparse product basis",
    "thorough": "as quick with 3 factors over all kinds, chains of 3 operations, and lists of 4 factors",
}
ASSUMPTIONS = ["evaluations and derivatives of the univariate factors are those of fresh copies of the factors (property P17)",
               "the order of the functions of a full tensor-product basis is that of MultiIndices.bounded_by (property P09)"]
U, N, L, D = tensap.UniformRandomVariable, tensap.NormalRandomVariable, tensap.LebesgueMeasure, tensap.DiscreteRandomVariable

F2 = [lambda x: x[:, 0] + 1, lambda x: x[:, 1] * x[:, 0]]
MK = {
    "L": lambda: tensap.PolynomialFunctionalBasis(U(-1, 1).orthonormal_polynomials(), [0, 1, 2]),
    "l": lambda: tensap.PolynomialFunctionalBasis(U(0, 2).orthonormal_polynomials(), [0, 1]),
    "1": lambda: tensap.PolynomialFunctionalBasis(U(0, 1).orthonormal_polynomials(), [0]),
    "H": lambda: tensap.PolynomialFunctionalBasis(N(1, 2).orthonormal_polynomials(), [1, 0]),
    "C": lambda: tensap.PolynomialFunctionalBasis(tensap.CanonicalPolynomials(U(0, 1)), [0, 1, 2]),
    "D": lambda: tensap.PolynomialFunctionalBasis(D([0.0, 1.0, 3.0], [1.0, 2.0, 1.0]).orthonormal_polynomials(), [0, 1]),
    "S": lambda: tensap.SubFunctionalBasis(MK["L"](), np.array([[1.0, 1], [0, 2], [1, -1]])),
    "P": lambda: tensap.PiecewisePolynomialFunctionalBasis([0.0, 1.0, 2.0], [0, 1]),
    "B": lambda: tensap.BSplinesFunctionalBasis([0.0, 0.5, 1.0, 2.0], 1),
    "M": lambda: tensap.UserDefinedFunctionalBasis(F2, tensap.RandomVector(U(0, 1), 2)),
}
MEAN = set("Ll1HCDS")           # bases with an exact mean and Gram matrix without rule
POLY = set("Ll1HCD")           # bases compared by value
ORTHO = set("Ll1HDP")
POINTS = {"L": (-0.9, 0.9), "l": (0.1, 1.9), "1": (0.1, 0.9), "H": (-1.0, 3.0), "C": (0.1, 0.9), "D": (0.0, 3.0), "S": (-0.9, 0.9), "P": (0.05, 1.93),
          "B": (0.05, 1.93), "M": (0.1, 0.9)}


def factor_lists(tier):
    kinds = "Ll1HCDSPBM"
    out = [(k,) for k in kinds]
    out += [p for p in itertools.product(kinds, repeat=2)]
    out += [p for p in itertools.product("lHCM" if tier == "quick" else "lHCDSM", repeat=3) if p.count("M") <= 1]
    out += [tuple("L1H"), tuple("SlD"), tuple("PlB"), tuple("Lll")]
    if tier != "quick":
        out += [p for p in itertools.product("lHC1", repeat=4)]
    return out


def cases(tier):
    for f in factor_lists(tier):
        yield {"kind": "bases", "f": "".join(f)}
        yield {"kind": "full", "f": "".join(f)}
        yield {"kind": "sparse", "f": "".join(f), "tier": tier}
    for f in ("lHC", "LHM", "CSl", "MlH", "D1L"):
        for cls in ("bases", "full", "sparse"):
            yield {"kind": "chains", "f": f, "cls": cls, "depth": 2 if tier == "quick" else 3}


def run(case, ctx):
    globals()["run_" + case["kind"]](case, ctx)


def mk(f):
    return [MK[k]() for k in f]


def bases(f):
    return tensap.FunctionalBases(mk(f))


def dim(k):
    return 2 if k == "M" else 1


def pts(f, n=4):
    """per factor points (n, dim)"""
    out = []
    for i, k in enumerate(f):
        a, b = POINTS[k]
        if k == "D":
            x = np.array([0.0, 1.0, 3.0, 1.0])[(np.arange(n) + i) % 4].reshape(-1, 1)
        else:
            x = a + (b - a) * (0.5 + 0.49 * np.sin(1.7 * (i + 1) + 2.3 * np.arange(n * dim(k)))).reshape(n, dim(k))
        out.append(x)
    return out


def ev(k, x, n=0):
    b = MK[k]()
    y = x if k == "M" else x[:, 0]
    return b.eval(y) if n == 0 else b.eval_derivative(n, y)


def colprod(E, I):
    out = np.ones((E[0].shape[0], len(I)))
    for i, e in enumerate(E):
        out = out * e[:, [r[i] for r in I]]
    return out


def box(f):
    """indices of the box in the order of MultiIndices.bounded_by"""
    return [tuple(int(v) for v in r) for r in tensap.MultiIndices.bounded_by([MK[k]().cardinal() - 1 for k in f]).array]


def amp(*a):
    return max([1.0] + [float(np.max(np.abs(x))) for x in a if np.size(x)])


def osub(d):
    return [s for r in range(1, d + 1) for s in itertools.permutations(range(d), r)]


def same_measure(ctx, obj, lst, sig):
    ctx.check(obj.measure == tensap.ProductMeasure([b.measure for b in lst]), sig + "/measure", "the measure is not that of the factors")


def dense(M):
    return np.asarray(M.todense()) if hasattr(M, "todense") else np.asarray(M)


def run_bases(case, ctx):
    f = case["f"]
    d = len(f)
    sig = "bases"
    x = pts(f)
    X = np.hstack(x)
    E = [ev(k, p) for k, p in zip(f, x)]
    ctx.trace()
    src = mk(f)
    H = None
    with ctx.op("FunctionalBases", f, pure=src, sig=sig + "/construct"):
        H = tensap.FunctionalBases(src)
        for G in (H, tensap.FunctionalBases(H), tensap.FunctionalBases(np.array(mk(f), dtype=object))):
            ctx.same((len(G), int(G.length())), (d, d), sig + "/length")
            ctx.same([int(c) for c in G.cardinals()], [e.shape[1] for e in E], sig + "/cardinals")
            ctx.same([int(c) for c in G.ndim()], [dim(k) for k in f], sig + "/ndim")
            ctx.same(int(G.storage()), 6 * f.count("S"), sig + "/storage")
            same_measure(ctx, G, src, sig)
        ctx.same(repr(H.domain()), repr([b.domain() for b in src]), sig + "/domain")
        if set(f) <= POLY:
            ctx.check(H == bases(f), sig + "/eq", "equal lists are not equal")
        for o in range(1, d):
            ctx.check(not (H == bases(f[:o])) and not (bases(f[:o]) == H), sig + "/eq", "lists of different length are equal")
        g = f[1:] + f[:1]
        if g != f:
            ctx.check(not (H == bases(g)), sig + "/eq", "different lists are equal")
    if H is None:
        return
    O = [H]
    with ctx.op("duplicate", pure=O, sig=sig + "/duplicate"):
        for m in (1, 2, 3):
            G = tensap.FunctionalBases.duplicate(MK[f[0]](), m)
            ctx.same((len(G), [int(c) for c in G.cardinals()]), (m, [E[0].shape[1]] * m), sig + "/duplicate")
            same_measure(ctx, G, [MK[f[0]]()] * m, sig + "/duplicate")
            ctx.close(G.eval(np.hstack([x[0]] * m))[-1], E[0], sig + "/duplicate")
    with ctx.op("eval", pure=O + [X, x], sig=sig + "/eval"):
        for arg in (X, x):
            for got, e in zip(H.eval(arg), E):
                ctx.close(got, e, sig + "/eval")
        got, y = H.eval(X, None, 2)
        ctx.same((len(got), len(y)), (d, d), sig + "/eval")
        for a, b in zip(y, x):
            ctx.close(np.reshape(a, b.shape), b, sig + "/eval")
    for s in osub(d):
        for arg in (list(s), np.array(s)):
            with ctx.op("eval(dims)", s, pure=O + [arg], sig=sig + "/eval(dims)"):
                got = H.eval(np.hstack([x[k] for k in s]), arg)
                ctx.same(len(got), len(s), sig + "/eval(dims)")
                for k, e in zip(s, got):
                    ctx.close(e, E[k], sig + "/eval(dims)")
                for k, e in zip(s, H.eval([x[k] for k in s], arg)):
                    ctx.close(e, E[k], sig + "/eval(dims)")
                ctx.same([int(c) for c in H.cardinals(arg)], [E[k].shape[1] for k in s], sig + "/cardinals")
        ctx.state("bases", f, s)
    smooth = "M" not in f
    if smooth:
        for n in itertools.product((0, 1, 2), repeat=d):
            W = [ev(k, p, m) if m else e for k, p, m, e in zip(f, x, n, E)]
            for arg in (list(n), np.array(n)):
                with ctx.op("eval_derivative", n, pure=O + [arg], sig=sig + "/eval_derivative"):
                    for got, w in zip(H.eval_derivative(arg, X), W):
                        ctx.close(got, w, sig + "/eval_derivative", scale=amp(w))
            if d > 1 and sum(n) < 4:
                s = list(range(d))[::-1][:2]
                with ctx.op("eval_derivative(dims)", n, pure=O, sig=sig + "/eval_derivative"):
                    for k, got in zip(s, H.eval_derivative([n[k] for k in s], [x[k] for k in s], s)):
                        ctx.close(got, W[k], sig + "/eval_derivative", scale=amp(W[k]))
    if set(f) <= set("Ll1HCS"):
        for n in itertools.product((0, 1, 2), repeat=d):
            with ctx.op("derivative", n, pure=O, sig=sig + "/derivative"):
                K = H.derivative(list(n))
                for got, k, p, m in zip(K.eval(X), f, x, n):
                    w = ev(k, p, m)
                    ctx.close(got, w, sig + "/derivative", scale=amp(w), tol=1e-7)
                same_measure(ctx, K, src, sig + "/derivative")
    if set(f) <= MEAN:
        M, G = [np.ravel(MK[k]().mean()) for k in f], [dense(MK[k]().gram_matrix()) for k in f]
        for s in [None] + osub(d):
            t = range(d) if s is None else s
            args = (None,) if s is None else (list(s), np.array(s))
            for arg in args:
                with ctx.op("mean/gram_matrices", s, pure=O + [arg], sig=sig + "/mean"):
                    for a, b in zip(H.mean(arg), [M[k] for k in t]):
                        ctx.close(np.ravel(a), b, sig + "/mean")
                    ctx.same(len(H.mean(arg)), len(t), sig + "/mean")
                    got = H.gram_matrices(arg)
                    ctx.same(len(got), len(t), sig + "/gram")
                    for a, b in zip(got, [G[k] for k in t]):
                        ctx.close(dense(a), b, sig + "/gram")
        mus = [U(0, 1), N(0.5, 1.5), U(-2, 1)]
        with ctx.op("mean(measure)", pure=O, sig=sig + "/mean(measure)"):
            mm = [mus[i % 3] for i in range(d)]
            for nu in (tensap.RandomVector(mm), tensap.ProductMeasure(mm)):
                for s in [None] + osub(d):
                    t = list(range(d) if s is None else s)
                    for a, k in zip(H.mean(None if s is None else list(s), nu), t):
                        w = np.ravel(MK[f[k]]().mean(mm[k]))
                        ctx.close(np.ravel(a), w, sig + "/mean(measure)", scale=amp(w), tol=1e-7)
                    if s is not None and len(s) < d:
                        sub = type(nu)([mm[k] for k in s])
                        for a, k in zip(H.mean(list(s), sub), t):
                            w = np.ravel(MK[f[k]]().mean(mm[k]))
                            ctx.close(np.ravel(a), w, sig + "/mean(measure)", scale=amp(w), tol=1e-7)
            for a, k in zip(H.mean(None, mus[0]), f):
                w = np.ravel(MK[k]().mean(mus[0]))
                ctx.close(np.ravel(a), w, sig + "/mean(measure)", scale=amp(w), tol=1e-7)
    if set(f) <= set("Ll1HCD"):
        for s in [None] + osub(d):
            t = range(d) if s is None else s
            with ctx.op("one", s, pure=O, sig=sig + "/one"):
                got = H.one(None if s is None else list(s))
                ctx.same(len(got), len(t), sig + "/one")
                for c, k in zip(got, t):
                    ctx.close(E[k] @ np.ravel(c), np.ones(len(X)), sig + "/one")
    if set(f) <= set("LlHC") and d > 1:
        g = f[1:] + f[:1]
        if all(a in "LlHC" for a in f) and len(set(f)) == 1:
            with ctx.op("kron", pure=O, sig=sig + "/kron"):
                K = H.kron(bases(f))
                for got, e in zip(K.eval(X), E):
                    w = np.column_stack([e[:, i] * e[:, j] for j in range(e.shape[1]) for i in range(e.shape[1])])
                    ctx.close(got, w, sig + "/kron", scale=amp(w), tol=1e-7)
                same_measure(ctx, K, src, sig + "/kron")
                ctx.same([int(c) for c in K.cardinals()], [e.shape[1] ** 2 for e in E], sig + "/kron")
    with ctx.op("adaptation_path", pure=O, sig=sig + "/adaptation_path"):
        for a, e in zip(H.adaptation_path(), E):
            ctx.same(np.array(a).astype(int).tolist(), np.triu(np.ones((e.shape[1],) * 2, dtype=int)).tolist(), sig + "/adaptation_path")
    if set(f) <= set("Ll1HD"):
        with ctx.op("orthonormalize", pure=O, sig=sig + "/orthonormalize"):
            for a in H.orthonormalize().gram_matrices():
                ctx.close(dense(a), np.eye(len(dense(a))), sig + "/orthonormalize")
    if set(f) <= set("lHC"):
        with ctx.op("random", pure=O, sig=sig + "/random"):
            cnt = itertools.count()

            def unif(s):
                return 0.001 + 0.998 * np.mod((np.arange(int(np.prod(s))) + 0.37) * 0.618 + 0.1 * next(cnt), 1.0).reshape(s)
            with rng.patched(uniform=unif, normal=unif):
                for n in (1, 3):
                    for s in [None] + osub(d):
                        t = list(range(d) if s is None else s)
                        if s is None:
                            got, y = H.random(n, None, 2)
                            one = H.random(n)
                        else:
                            got, y = H.random_dims(list(s), n, None, 2)
                            one = H.random_dims(np.array(s), n)
                        for g in (got, one):
                            g = g if isinstance(g, list) else [g]
                            ctx.same([np.shape(v) for v in g], [(n, E[k].shape[1]) for k in t], sig + "/random")
                        got = got if isinstance(got, list) else [got]
                        for k, g, z in zip(t, got, y):
                            ctx.close(g, ev(f[k], np.reshape(z, (n, 1))), sig + "/random")
                            lo, hi = np.ravel(MK[f[k]]().measure.support())
                            ctx.check(np.all((np.ravel(z) >= lo) & (np.ravel(z) <= hi)), sig + "/random", "points outside the support of the factor")
                nu = tensap.RandomVector([U(5 + i, 6 + i) for i in range(d)])
                for s in osub(d):
                    got, y = H.random_dims(list(s), 2, nu, 2)
                    for k, z in zip(s, y):
                        ctx.check(np.all((np.ravel(z) >= 5 + k) & (np.ravel(z) <= 6 + k)), sig + "/random", "points not drawn from the marginal")
        with ctx.op("get_random_vector", pure=O, sig=sig + "/get_random_vector"):
            rv = H.get_random_vector()
            ctx.check(isinstance(rv, tensap.RandomVector), sig + "/get_random_vector", "not a RandomVector")
            if isinstance(rv, tensap.RandomVector):
                ctx.check(all(a == b.measure for a, b in zip(rv.random_variables, src)) and len(rv.random_variables) == d, sig + "/get_random_vector")


def run_full(case, ctx):
    f = case["f"]
    d = len(f)
    sig = "full"
    x = pts(f)
    X = np.hstack(x)
    I = box(f)
    E = [ev(k, p) for k, p in zip(f, x)]
    H = None
    ctx.trace()
    src = bases(f)
    with ctx.op("FullTensorProductFunctionalBasis", f, pure=[src], sig=sig + "/construct"):
        H = tensap.FullTensorProductFunctionalBasis(src)
        K = tensap.FullTensorProductFunctionalBasis(mk(f))
        for G in (H, K):
            ctx.same((len(G), int(G.length()), int(G.cardinal()), int(G.ndim())), (d, d, len(I), sum(dim(k) for k in f)), sig + "/cardinal")
            ctx.same(bool(G.is_orthonormal), set(f) <= ORTHO, sig + "/is_orthonormal")
            same_measure(ctx, G, src.bases, sig)
        ctx.same(repr(H.domain()), repr(src.domain()), sig + "/domain")
        if set(f) <= POLY:
            ctx.check(H == K, sig + "/eq")
        if d > 1:
            ctx.check(not (H == tensap.FullTensorProductFunctionalBasis(mk(f[:-1]))), sig + "/eq")
            if f[::-1] != f:
                ctx.check(not (H == tensap.FullTensorProductFunctionalBasis(mk(f[::-1]))), sig + "/eq")
    if H is None:
        return
    O = [H, X]
    with ctx.op("eval", f, pure=O, sig=sig + "/eval"):
        W = colprod(E, I)
        ctx.close(H.eval(X), W, sig + "/eval", scale=amp(W))
    with ctx.op("storage/path", pure=O, sig=sig + "/path"):
        ctx.same(np.array(H.adaptation_path()).astype(int).tolist(), np.triu(np.ones((len(I),) * 2, dtype=int)).tolist(), sig + "/path")
    if set(f) <= MEAN:
        M = [np.ravel(MK[k]().mean()) for k in f]
        with ctx.op("mean", f, pure=O, sig=sig + "/mean"):
            w = np.array([np.prod([m[i] for m, i in zip(M, r)]) for r in I])
            ctx.close(np.ravel(H.mean()), w, sig + "/mean")
            mm = [[U(0, 1), N(0.5, 1.5), U(-2, 1)][i % 3] for i in range(d)]
            for nu in (tensap.RandomVector(mm), tensap.ProductMeasure(mm)):
                V = [np.ravel(MK[k]().mean(mu)) for k, mu in zip(f, mm)]
                w = np.array([np.prod([m[i] for m, i in zip(V, r)]) for r in I])
                ctx.close(np.ravel(H.mean(nu)), w, sig + "/mean(measure)", scale=amp(w), tol=1e-7)
        with ctx.op("gram_matrices", f, pure=O, sig=sig + "/gram"):
            for s in [None] + osub(d):
                t = range(d) if s is None else s
                for a, k in zip(H.gram_matrices(None if s is None else list(s)), t):
                    ctx.close(dense(a), dense(MK[f[k]]().gram_matrix()), sig + "/gram")
        with ctx.op("gram_matrix(rule)", f, pure=O, sig=sig + "/gram"):
            R = src.measure.gauss_integration_rule(3).integration_rule()
            Gs = [dense(MK[k]().gram_matrix()) for k in f]
            w = np.array([[np.prod([g[a, b] for g, a, b in zip(Gs, r, q)]) for q in I] for r in I])
            ctx.close(H.gram_matrix(R), w, sig + "/gram", scale=amp(w), tol=1e-7)
    if set(f) <= set("Ll1HD"):
        with ctx.op("orthonormalize", pure=O, sig=sig + "/orthonormalize"):
            K = H.orthonormalize()
            ctx.close(K.eval(X), colprod(E, I), sig + "/orthonormalize")
            ctx.check(bool(K.is_orthonormal), sig + "/orthonormalize", "flag")
    ctx.state("full", f)


def index_sets(f, tier):
    I = box(f)
    if len(I) <= 8:
        for r in range(1, len(I) + 1):
            for s in itertools.combinations(I, r):
                yield s
                if r > 1 and len(I) <= 6:
                    yield s[::-1]
        if len(I) <= 4:
            for r in (3, 4):
                for s in itertools.permutations(I, r):
                    yield s
    else:
        cap = 8 if tier == "quick" else 20
        down = {frozenset([I[0]])}
        todo = list(down)
        n = 0
        while todo:
            s = todo.pop()
            srt = tuple(r for r in I if r in s)
            n += 1
            yield srt
            if n % 3 == 0:
                yield srt[::-1]
            for r in I:
                if r not in s and all(tuple(v - (j == k) for j, v in enumerate(r)) in s for k in range(len(r)) if r[k] > 0):
                    t = s | {r}
                    if len(t) <= cap and t not in down:
                        down.add(t)
                        todo.append(t)


def run_sparse(case, ctx):
    f = case["f"]
    d = len(f)
    sig = "sparse"
    x = pts(f)
    X = np.hstack(x)
    E = [ev(k, p) for k, p in zip(f, x)]
    src = bases(f)
    smooth = "M" not in f
    ders = [n for n in itertools.product((0, 1, 2), repeat=d) if sum(n) <= 3] if smooth else []
    DE = {n: [ev(k, p, m) if m else e for k, p, m, e in zip(f, x, n, E)] for n in ders}
    M = [np.ravel(MK[k]().mean()) for k in f] if set(f) <= MEAN else None
    mm = [[U(0, 1), N(0.5, 1.5), U(-2, 1)][i % 3] for i in range(d)]
    M2 = [np.ravel(MK[k]().mean(mu)) for k, mu in zip(f, mm)] if M else None
    Gs = [dense(MK[k]().gram_matrix()) for k in f] if M else None
    for num, I in enumerate(index_sets(f, case["tier"])):
        H = None
        ctx.trace()
        mi = tensap.MultiIndices(np.array(I))
        with ctx.op("SparseTensorProductFunctionalBasis", f, I, pure=[src, mi], sig=sig + "/construct"):
            H = tensap.SparseTensorProductFunctionalBasis(src, mi)
            ctx.same((len(H), int(H.length()), int(H.cardinal()), int(H.ndim())), (d, d, len(I), sum(dim(k) for k in f)), sig + "/cardinal")
            ctx.same(bool(H.is_orthonormal), set(f) <= ORTHO, sig + "/is_orthonormal")
            same_measure(ctx, H, src.bases, sig)
        if H is None:
            continue
        O = [H]
        with ctx.op("eval", f, I, pure=O + [X], sig=sig + "/eval"):
            W = colprod(E, I)
            ctx.close(H.eval(X), W, sig + "/eval", scale=amp(W))
            if num % 3 == 0:
                Hx = [np.array(e) for e in E]
                ctx.close(H.eval_with_functional_bases_evals(Hx), W, sig + "/eval", scale=amp(W))
                ctx.check(all(np.array_equal(a, b) for a, b in zip(Hx, E)), sig + "/eval", "evaluations modified")
        ctx.state("sparse", f, I)
        if num % 4 and len(I) > 1 and len(box(f)) > 4:
            continue
        for n in ders if num % 8 == 0 or len(box(f)) <= 4 else ders[:3]:
            with ctx.op("eval_derivative", n, I, pure=O, sig=sig + "/eval_derivative"):
                W = colprod(DE[n], I)
                ctx.close(H.eval_derivative(list(n), X), W, sig + "/eval_derivative", scale=amp(W))
        if smooth:
            with ctx.op("eval_jacobian", I, pure=O, sig=sig + "/eval_jacobian"):
                W = np.stack([colprod(DE[tuple(int(i == j) for j in range(d))], I) for i in range(d)], axis=2)
                ctx.close(H.eval_jacobian(X), W, sig + "/eval_jacobian", scale=amp(W))
        if set(f) <= set("Ll1HC") and num % 3 == 0:
            for n in ders[1:4]:
                with ctx.op("derivative", n, I, pure=O, sig=sig + "/derivative"):
                    W = colprod(DE[n], I)
                    K = H.derivative(list(n))
                    ctx.close(K.eval(X), W, sig + "/derivative", scale=amp(W), tol=1e-7)
                    ctx.same(int(K.cardinal()), len(I), sig + "/derivative")
        if M:
            with ctx.op("mean", I, pure=O, sig=sig + "/mean"):
                w = np.array([np.prod([m[i] for m, i in zip(M, r)]) for r in I])
                ctx.close(np.ravel(H.mean()), w, sig + "/mean")
                w = np.array([np.prod([m[i] for m, i in zip(M2, r)]) for r in I])
                for nu in (tensap.RandomVector(mm), tensap.ProductMeasure(mm)):
                    ctx.close(np.ravel(H.mean(nu)), w, sig + "/mean(measure)", scale=amp(w), tol=1e-7)
            with ctx.op("gram_matrix", I, pure=O, sig=sig + "/gram"):
                w = np.array([[np.prod([g[a, b] for g, a, b in zip(Gs, r, q)]) for q in I] for r in I])
                ctx.close(dense(H.gram_matrix()), w, sig + "/gram", scale=amp(w), tol=1e-7)
            if set(f) <= set("Ll1HC") and num % 3 == 0:
                with ctx.op("gram_matrix_h1_0", I, pure=O, sig=sig + "/h1"):
                    q = [b.measure.gauss_integration_rule(4) for b in src.bases]
                    D1 = [ev(k, np.reshape(r.points, (-1, 1)), 1) for k, r in zip(f, q)]
                    G1 = [v.T @ (np.ravel(r.weights)[:, None] * v) for v, r in zip(D1, q)]
                    w = np.zeros((len(I), len(I)))
                    for i in range(d):
                        w += np.array([[np.prod([(G1 if j == i else Gs)[j][r[j], s[j]] for j in range(d)]) for s in I] for r in I])
                    ctx.close(dense(H.gram_matrix_h1_0()), w, sig + "/h1", scale=amp(w), tol=1e-7)
            if set(f) <= set("Ll1HC") and num % 3 == 0 and len(I) > 1:
                run_sub(ctx, H, f, I, X, DE, M, Gs, w, sig + "/sub")
        with ctx.op("adaptation_path", I, pure=O, sig=sig + "/adaptation_path"):
            for p in (1, 2, np.inf):
                nr = np.linalg.norm(np.array(I, dtype=float), ord=p, axis=1)
                w = np.column_stack([nr <= v for v in np.unique(np.round(nr, 12)) + 1e-9])
                args = (p,) if p != 1 else ()
                ctx.same(np.array(H.adaptation_path(*args)).astype(int).tolist(), w.astype(int).tolist(), sig + "/adaptation_path")
        with ctx.op("eq", I, pure=O, sig=sig + "/eq"):
            if set(f) <= POLY:
                ctx.check(bool(H == tensap.SparseTensorProductFunctionalBasis(bases(f), tensap.MultiIndices(np.array(I)))), sig + "/eq")
            if len(I) > 1:
                ctx.check(not bool(H == tensap.SparseTensorProductFunctionalBasis(bases(f), tensap.MultiIndices(np.array(I[1:])))), sig + "/eq")


def run_sub(ctx, H, f, I, X, DE, M, Gs, h1, sig):
    """subspace of a sparse product basis spanned by given combinations of its elements"""
    n, d = len(I), len(f)
    for A in (np.array([[(-1.0) ** (i * j) / (1 + i + 2 * j) for j in range(2)] for i in range(n)]), np.eye(n)[:, ::-1][:, :2]):
        with ctx.op("SubFunctionalBasis", A.tolist(), I, pure=[H, A], sig=sig):
            B = tensap.SubFunctionalBasis(H, A)
            ctx.same((int(B.cardinal()), int(B.ndim())), (A.shape[1], int(H.ndim())), sig + "/cardinal")
            W = colprod(DE[(0,) * d], I) @ A
            ctx.close(B.eval(X), W, sig + "/eval", scale=amp(W))
            if A.shape[1] > 1:
                ctx.close(B.eval(X, [1]), W[:, [1]], sig + "/eval", scale=amp(W))
            grad = [tuple(int(i == j) for j in range(d)) for i in range(d)]
            for m in grad + [(0,) * d]:
                W = colprod(DE[m], I) @ A
                ctx.close(B.eval_derivative(list(m), X), W, sig + "/eval_derivative", scale=amp(W), tol=1e-7)
                ctx.close(B.derivative(list(m)).eval(X), W, sig + "/derivative", scale=amp(W), tol=1e-7)
            W = np.stack([colprod(DE[m], I) @ A for m in grad], axis=2)
            ctx.close(B.eval_jacobian(X), W, sig + "/eval_jacobian", scale=amp(W), tol=1e-7)
            w = np.array([np.prod([m[i] for m, i in zip(M, r)]) for r in I]) @ A
            ctx.close(np.ravel(B.mean()), w, sig + "/mean", scale=amp(w), tol=1e-7)
            G = np.array([[np.prod([g[a, b] for g, a, b in zip(Gs, r, q)]) for q in I] for r in I])
            G = A.T @ G @ A
            ctx.close(dense(B.gram_matrix()), G, sig + "/gram", scale=amp(G), tol=1e-7)
            ctx.close(dense(B.gram_matrix_h1_0()), A.T @ h1 @ A, sig + "/h1", scale=amp(h1), tol=1e-7)
            ctx.same(bool(B.is_orthonormal), bool(set(f) <= ORTHO and np.allclose(A.T @ A, np.eye(A.shape[1]), atol=1e-14)), sig + "/is_orthonormal")
            if set(f) <= ORTHO and np.linalg.matrix_rank(A) == A.shape[1]:
                Q = B.orthonormalize()
                q = dense(Q.gram_matrix())
                ctx.close(q, np.eye(A.shape[1]), sig + "/orthonormalize", tol=1e-7)
                c = np.linalg.lstsq(B.eval(X), Q.eval(X), rcond=None)[0] if np.linalg.matrix_rank(B.eval(X)) == A.shape[1] else None
                if c is not None:
                    ctx.close(B.eval(X) @ c, Q.eval(X), sig + "/orthonormalize", scale=amp(Q.eval(X)), tol=1e-7)
        ctx.state("sub", f, I, A.shape[1])


def apply(model, op, arg):
    """model = (list of factor numbers, index list or None)"""
    f, I = model
    if op == "keep" or op == "transpose":
        sel = list(arg)
    else:
        sel = [k for k in range(len(f)) if k not in arg]
    J = None
    if I is not None:
        J = []
        for r in I:
            t = tuple(r[k] for k in sel)
            if t not in J:
                J.append(t)
    return [f[k] for k in sel], J


def moves(n):
    for s in osub(n):
        yield "keep", s
    for r in range(0, n):
        for s in itertools.combinations(range(n), r):
            yield "remove", s
    for s in itertools.permutations(range(n)):
        yield "transpose", s


SETS = [((0, 0, 0), (1, 0, 0), (0, 1, 0), (1, 1, 0)), ((0, 0, 0),), ((0, 1, 0), (1, 0, 0), (0, 0, 0), (1, 1, 0))]


def run_chains(case, ctx):
    f, cls, depth = case["f"], case["cls"], case["depth"]
    if cls == "sparse":
        b = box(f)
        starts = [tuple(b), tuple(b[::-2]), tuple(b[1:4]), (b[0],)]
    else:
        starts = [None]
    make = {"bases": bases, "full": lambda g: tensap.FullTensorProductFunctionalBasis(bases(g))}
    for st in starts:
        X = pts(f)

        def start():
            if cls == "sparse":
                return tensap.SparseTensorProductFunctionalBasis(bases(f), tensap.MultiIndices(np.array(st)))
            return make[cls](f)

        def walk(obj, model, left, hist):
            for op, arg in moves(len(model[0])):
                new = apply(model, op, arg)
                if not new[0]:
                    continue
                forms = [list(arg), np.array(arg, dtype=int)] + ([arg[0]] if len(arg) == 1 and op != "transpose" else [])
                if left < depth:
                    forms = forms[:1]
                for a in forms:
                    out = None
                    ctx.trace()
                    with ctx.op(op, hist, arg, pure=[obj, a], sig="chain/" + op):
                        out = getattr(obj, op if op == "transpose" else op + "_bases")(a)
                        look(ctx, out, new, f, X, cls, "chain/" + op)
                ctx.state(cls, f, st, hist, op, arg)
                if left > 1 and out is not None:
                    walk(out, new, left - 1, hist + ((op, arg),))
        walk(start(), ([*range(len(f))], st), depth, ())


def look(ctx, out, model, f, X, cls, sig):
    nums, I = model
    g = [f[k] for k in nums]
    E = [ev(f[k], X[k]) for k in nums]
    x = np.hstack([X[k] for k in nums])
    lst = [MK[k]() for k in g]
    same_measure(ctx, out, lst, sig)
    ctx.same(int(out.length()), len(g), sig + "/length")
    if cls == "bases":
        ctx.same([int(c) for c in out.cardinals()], [e.shape[1] for e in E], sig + "/cardinals")
        ctx.same([int(c) for c in out.ndim()], [dim(k) for k in g], sig + "/ndim")
        for a, b in zip(out.eval(x), E):
            ctx.close(a, b, sig + "/eval")
        if set(g) <= POLY:
            ctx.check(out == tensap.FunctionalBases(lst), sig + "/eq")
        return
    if cls == "full":
        I = box(g)
    else:
        ctx.same([tuple(int(v) for v in r) for r in np.reshape(out.indices.array, (-1, len(g)))], I, sig + "/indices")
    ctx.same((int(out.cardinal()), int(out.ndim())), (len(I), sum(dim(k) for k in g)), sig + "/cardinal")
    ctx.same(bool(out.is_orthonormal), set(g) <= ORTHO, sig + "/is_orthonormal")
    W = colprod(E, I)
    ctx.close(out.eval(x), W, sig + "/eval", scale=amp(W))
