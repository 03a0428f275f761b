"""Interpolation, magic points and projections: unisolvent points, exact on the space, greedy."""
import functools
import itertools

import numpy as np
import tensap

from .. import ref, rng
from . import p18
from .p18 import MK, POINTS, U, N, amp, box, bases, colprod, ev, pts

ID = "P22"
BOUNDS = {
    "quick": "magic indices of all matrices 2x2, 2x3, 3x2 over {-1,0,1,2}, 3x3 over {-1,0,1} and 1200 matrices 4x3/3x4/4x4 with the three options and every number of "
             "indices up to the rank; 14 kinds of univariate bases (and one bivariate) with every unisolvent subset of 6 points, every subset of 6 candidates "
             "for the magic points and every order J of the functions; every list of 1 or 2 factors over 7 kinds and 12 lists of 3 for tensor-product bases with "
             "7 ways of giving the grid and the function in 5 forms; every downward closed set of a box of up to 12 indices for sparse bases; points drawn by the basis itself and lists of bases; "
             "targets: every function of the basis and one function out of the space",
    "thorough": "as quick with all 3x3 matrices over {-1,0,1,2}, 7 points / candidates and every list of 3 factors",
}
ASSUMPTIONS = ["evaluations of the univariate bases are those of fresh copies (property P17)",
               "magic indices with option 'left' are specified for matrices whose n first columns are independent: the k-th row maximises the residual of the k-th column"]
MORE = {
    "Q": lambda: tensap.PolynomialFunctionalBasis(U(-1, 1).orthonormal_polynomials(), [0, 1, 2, 3]),
    "O": lambda: tensap.SubFunctionalBasis(MK["L"](), np.array([[1.0, 0], [2, 1], [0, 1]])),
    "W": lambda: tensap.UserDefinedFunctionalBasis([lambda x: np.ones(np.shape(x)[0]), lambda x: np.exp(np.ravel(x)), lambda x: np.ravel(x) ** 2], U(0, 1), 1),
    "R": lambda: tensap.PiecewisePolynomialFunctionalBasis([0.0, 0.5, 2.0], [1, 0]),
}
MK2 = {**MK, **MORE}
PTS2 = {**POINTS, "Q": (-0.9, 0.9), "O": (-0.9, 0.9), "W": (0.1, 0.9), "R": (0.05, 1.93)}


def cases(tier):
    for sh in ((1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2)):
        yield {"kind": "magic", "sh": sh, "vals": [-1, 0, 1, 2]}
    v3 = [-1, 0, 1] if tier == "quick" else [-1, 0, 1, 2]
    for head in itertools.product(v3, repeat=2):
        yield {"kind": "magic", "sh": (3, 3), "vals": v3, "head": list(head)}
    for sh in ((4, 3), (3, 4), (4, 4)):
        yield {"kind": "magic", "sh": sh, "vals": None}
    for k in MK2:
        if k == "D":
            continue
        yield {"kind": "one", "k": k, "m": 6 if tier == "quick" else 7}
        yield {"kind": "points", "k": k, "m": 6 if tier == "quick" else 7}
    for k in "Ll1HCSPRBWQDM":
        yield {"kind": "auto", "k": k}
    for f in ("L", "lH", "PC", "SDR", "LHP"):
        yield {"kind": "lists", "f": f}
    yield {"kind": "delta"}
    lists = [(k,) for k in "LlHCSPB"] + list(itertools.product("LlHCSPB", repeat=2))
    lists += [tuple(s) for s in ("LlH", "lCS", "HHl", "PBl", "CCC", "SlL", "BlP", "l1L", "1lH", "LLl", "lll", "HlC")]
    if tier != "quick":
        lists += list(itertools.product("LlHCSPB", repeat=3))
    for f in dict.fromkeys(lists):
        yield {"kind": "full", "f": "".join(f)}
    for f in ("L", "H", "LL", "lH", "CL", "lC", "llL", "lHl", "LlC", "HHl") + (("LLl", "LLL") if tier != "quick" else ()):
        yield {"kind": "sparse", "f": f}
    for k in "LlHCSPBWQO1":
        yield {"kind": "projection", "k": k}


def run(case, ctx):
    with np.errstate(all="ignore"):
        globals()["run_" + case["kind"]](case, ctx)


# -- magic indices -----------------------------------------------------------
def matrices(case):
    sh = tuple(case["sh"])
    if case["vals"] is None:
        for t in range(400):
            A = np.round(3 * ref.gen(sh, t))
            if t % 3 == 0:
                A = A + 0.1 * ref.gen(sh, t + 7)
            yield A
        return
    head = case.get("head", [])
    for v in itertools.product(case["vals"], repeat=sh[0] * sh[1] - len(head)):
        yield np.array(list(head) + list(v), dtype=float).reshape(sh)


def eliminated(F, I, J):
    """residual of the interpolation of F on the cross (I, J)"""
    R = np.array(F)
    for i, j in zip(I, J):
        R = R - np.outer(R[:, j], R[i, :]) / R[i, j]
    return R


def greedy(F, I, J, option):
    """None, or what is wrong with the magic indices (I, J)"""
    n = len(I)
    if len(J) != n or len(set(I)) != n or len(set(J)) != n:
        return "indices not distinct"
    if option == "left" and list(J) != list(range(n)):
        return "columns are not the first ones"
    if option == "right" and list(I) != list(range(n)):
        return "rows are not the first ones"
    top = np.max(np.abs(F))
    for k in range(n):
        R = np.abs(eliminated(F, I[:k], J[:k]))
        best = np.max(R) if option == "left_right" else np.max(R[:, k]) if option == "left" else np.max(R[k, :])
        if R[I[k], J[k]] < best * (1 - 1e-7) - 1e-11 * top:
            return "index %d is not a maximiser of the residual" % k
        if R[I[k], J[k]] < 1e-10 * top:
            return "not unisolvent"
    return None


def rank(A):
    return int(np.linalg.matrix_rank(A)) if np.size(A) else 0


def run_magic(case, ctx):
    bad = 0
    for F in matrices(case):
        r = rank(F)
        for option in ("left_right", "left", "right"):
            top = r
            if option == "left":
                top = next((k for k in range(min(F.shape)) if rank(F[:, :k + 1]) < k + 1), min(F.shape))
            elif option == "right":
                top = next((k for k in range(min(F.shape)) if rank(F[:k + 1, :]) < k + 1), min(F.shape))
            ns = list(range(1, top + 1)) + ([None] if top == min(F.shape) else [])
            for n in ns:
                sig = "magic_indices/" + option
                with ctx.op("magic_indices", F.tolist(), n, option, pure=[F], sig=sig):
                    G = F if ctx.comparisons % 2 else F.tolist() if ctx.comparisons % 3 else F
                    I, J = tensap.magic_indices(G, n, option) if option != "left_right" or ctx.comparisons % 5 else tensap.magic_indices(G, n)
                    I, J = [int(i) for i in np.ravel(I)], [int(j) for j in np.ravel(J)]
                    ctx.comparisons += 1
                    if len(I) != (min(F.shape) if n is None else n):
                        ctx.fail(sig, f"{len(I)} indices of {n} asked", F=F.tolist())
                    elif greedy(F, I, J, option):
                        ctx.fail(sig, greedy(F, I, J, option), F=F.tolist(), I=I, J=J)
                        bad += 1
                    ctx.outcomes.add((option, tuple(I), tuple(J)))
                ctx.trace()
        ctx.state(F.tobytes())
        if bad > 5:
            return


# -- univariate bases -----------------------------------------------------------
def ev2(k, x):
    b = MK2[k]()
    return b.eval(x if k == "M" else x[:, 0])


def cand(k, m, t=0):
    a, b = PTS2[k]
    if k == "M":
        return a + (b - a) * (0.5 + 0.49 * np.sin(1.7 + 2.3 * np.arange(2 * m) + t)).reshape(m, 2)
    x = a + (b - a) * np.linspace(0, 1, m) ** (1.0 + 0.3 * t)
    return x[(np.arange(m) * (5 if m % 5 else 3) + t) % m].reshape(-1, 1)


def outside(x):
    x = np.atleast_2d(x)
    return np.sin(3 * np.sum(x * (1 + np.arange(x.shape[1])), 1)) + np.prod(x, 1) ** 3


def targets(E):
    """name, coefficients of functions of the space (values E @ c)"""
    n = E.shape[1]
    for i in range(n):
        yield "e%d" % i, np.eye(n)[:, i]
    yield "mix", ref.gen((n,), 3)
    yield "vector", ref.gen((n, 2), 4)


def src(t):
    n = [0]

    def draw(s):
        n[0] += 1
        return (np.mod(np.arange(int(np.prod(s))) * (0.6180339887 + 0.07 * t + 0.1134 * n[0]) + 0.31 * t + 0.05, 0.98) + 0.01).reshape(s)
    return draw


def gsrc(t):
    n = [0]

    def draw(s):
        n[0] += 1
        return 2.2 * np.sin(1.0 + t + (1.9 + 0.37 * n[0]) * np.arange(int(np.prod(s)))).reshape(s)
    return draw


def run_one(case, ctx):
    k, m = case["k"], case["m"]
    b = MK2[k]()
    n = int(b.cardinal())
    X = cand(k, m)
    Y = cand(k, 9, 1)
    EY = ev2(k, Y)
    sig = "interpolate/" + type(b).__name__
    sets = [list(s) for s in itertools.combinations(range(m), n)] + [list(s) for s in itertools.permutations(range(n))]
    for s in sets:
        x = X[s]
        E = ev2(k, x)
        if np.linalg.cond(E) > 1e4:
            continue
        forms = [x] if k == "M" else [x, x[:, 0]]
        for p in forms:
            check_interp(ctx, b, k, p, x, E, Y, EY, sig)
        ctx.state(k, s)
    for t in range(3):
        if k not in "B":
            with ctx.op("interpolation_points", pure=[b], sig=sig + "/default points"):
                with rng.patched(uniform=src(t), normal=gsrc(t)):
                    x = np.asarray(b.interpolation_points())
                x = x.reshape(n, -1)
                E = ev2(k, x)
                ctx.check(rank(E) == n, sig + "/default points", "not unisolvent")
            check_interp(ctx, b, k, None, x, E, Y, EY, sig + "/default points", t)
        ctx.state(k, "default", t)


def check_interp(ctx, b, k, p, x, E, Y, EY, sig, t=0):
    n = E.shape[0]
    for name, c in list(targets(E)) + [("out", None)]:
        if c is None:
            fun, v = (lambda z: outside(np.reshape(z, (-1, x.shape[1])))), outside(x)
        else:
            def fun(z, c=c):
                z = np.asarray(z)
                return ev2(k, z.reshape(-1, x.shape[1])) @ c
            v = E @ c
        args = [fun, v] + ([v.reshape(-1, 1), v.tolist()] if v.ndim == 1 else [])
        for j, y in enumerate(args):
            with ctx.op("interpolate", name, ("function", "values", "column", "list")[j], pure=[b, y, x], sig=sig):
                with rng.patched(uniform=src(t), normal=gsrc(t)):
                    f = b.interpolate(y) if p is None else b.interpolate(y, p)
                sc = amp(v) * amp(np.linalg.inv(E)) * amp(E)
                ctx.close(np.reshape(f.eval(x if k == "M" else x[:, 0]), v.shape), v, sig, msg="values at the points", scale=sc, tol=1e-9)
                if c is not None:
                    ctx.close(np.reshape(f.data, c.shape), c, sig, msg="coefficients of a function of the space", scale=sc, tol=1e-9)
                    ctx.close(np.reshape(f.eval(Y if k == "M" else Y[:, 0]), (len(Y),) + c.shape[1:]), EY @ c, sig, msg="function of the space", scale=sc, tol=1e-8)
            ctx.trace()


def run_points(case, ctx):
    k, m = case["k"], case["m"]
    b = MK2[k]()
    n = int(b.cardinal())
    sig = "magic_points/" + type(b).__name__
    for t in range(2):
        X = cand(k, m, t)
        for r in range(n, m + 1):
            for s in itertools.combinations(range(m), r):
                x = X[list(s)]
                F = ev2(k, x)
                if rank(F) < n:
                    continue
                Js = [None] + ([list(J) for J in itertools.permutations(range(n))] if n <= 4 and (r == m or r == n + 1) else [])
                for J in Js:
                    with ctx.op("magic_points", list(s), J, pure=[b, x], sig=sig):
                        a = x[:, 0] if x.shape[1] == 1 and len(s) % 2 else x
                        P, ind, out = b.magic_points(a) if J is None else b.magic_points(a, J if sum(J[:1]) % 2 else np.array(J))
                        ind = [int(i) for i in np.ravel(ind)]
                        ctx.same(len(set(ind)), n, sig, "number of distinct points")
                        ctx.close(P, x[ind], sig, msg="points are those of the indices")
                        if J is None:
                            ok = any(greedy(F, ind, list(jj), "left_right") is None for jj in itertools.permutations(range(n)))
                        else:
                            ok = greedy(F[:, J], ind, list(range(n)), "left") is None
                        ctx.check(ok, sig, "not greedy")
                        L = np.linalg.solve(F[ind].T, F.T).T
                        ctx.close(out["lebesgue_constant"], np.max(np.sum(np.abs(L), 1)), sig, msg="Lebesgue constant", tol=1e-7, scale=amp(L))
                    ctx.trace()
                    ctx.state(k, t, s, J)
                with ctx.op("interpolation_points", list(s), pure=[b, x], sig=sig):
                    ctx.close(b.interpolation_points(x), b.magic_points(x)[0], sig + "/interpolation_points")
    d = PTS2[k]
    for nn in (1, 2, 3, 5):
        for ab in (None, d, list(d), np.array(d)):
            with ctx.op("chebyshev_points", nn, sig="chebyshev_points"):
                y = tensap.chebyshev_points(nn) if ab is None else tensap.chebyshev_points(nn, ab)
                lo, hi = (-1, 1) if ab is None else d
                z = (np.ravel(y) - (lo + hi) / 2) / ((hi - lo) / 2)
                ctx.same(np.shape(y), (nn, 1), "chebyshev_points")
                ctx.close(np.cos(nn * np.arccos(np.clip(z, -1, 1))), np.zeros(nn), "chebyshev_points", msg="roots")
                ctx.check(len(set(np.round(z, 9))) == nn, "chebyshev_points", "distinct")


def run_auto(case, ctx):
    """points drawn by the basis itself: every stream of a finite family of draws"""
    k = case["k"]
    b = MK2[k]()
    n = int(b.cardinal())
    sig = "magic_points/auto/" + type(b).__name__
    for t in range(6):
        def stream(s, t=t):
            m = int(np.prod(s, dtype=int))
            return ((0.137 * (t + 1) + (np.arange(m) + t) * (0.618033988749895, 0.41421356, 0.7320508)[t % 3]) % 1.0).reshape(s)
        for what in ("magic_points", "interpolation_points"):
            with ctx.op(what, t, pure=[b], sig=sig):
                with rng.patched(uniform=stream, normal=lambda s: np.tan((stream(s) - 0.5) * 2.6)):
                    res = getattr(b, what)()
                x = res[0] if isinstance(res, tuple) else res
                x = np.asarray(x, float)
                x = x.reshape(-1, 1) if x.ndim == 1 else x
                ctx.same(x.shape, (n, int(b.ndim())), sig, what + " shape")
                F = ev2(k, x)
                ctx.check(rank(F) == n, sig, what + " unisolvent")
                s = np.asarray(b.domain() if k not in "M" else [[0, 1], [0, 1]], float).reshape(-1, 2)
                ctx.check(np.all((x >= s[:, 0] - 1e-12) & (x <= s[:, 1] + 1e-12)), sig, what + " in the domain")
                if isinstance(res, tuple):
                    ctx.check(res[2]["lebesgue_constant"] >= 1 - 1e-12, sig, "Lebesgue constant")
                if k in "PR":
                    e = [0.0, 1.0, 2.0] if k == "P" else [0.0, 0.5, 2.0]
                    ctx.same(np.histogram(x, e)[0].tolist(), [1, 2] if k == "P" else [2, 1], sig, what + " per element")
                if what == "interpolation_points":
                    f = b.interpolate(F @ ref.gen((n,), 2), x)
                    ctx.close(np.ravel(f.data), ref.gen((n,), 2), sig, msg="interpolate", tol=1e-7, scale=amp(np.linalg.inv(F)))
            ctx.trace()
            ctx.state("auto", k, t, what)


def run_lists(case, ctx):
    """points of a list of bases are those of each of them"""
    f = case["f"]
    mk = lambda: [MK2[k]() for k in f]   # noqa
    H = tensap.FunctionalBases(mk())
    cards = [int(b.cardinal()) for b in mk()]
    sig = "FunctionalBases.magic_points"
    dsc = np.array([0.0, 1.0, 3.0])
    X = [np.resize(dsc, (7, 1)) if k == "D" else cand(k, 7, i) for i, k in enumerate(f)]
    F = [ev2(k, x) for k, x in zip(f, X)]
    forms = {"list": lambda: [np.array(x) for x in X], "array": lambda: np.hstack(X), "grid": lambda: tensap.FullTensorGrid([np.array(x) for x in X]),
             "1d": lambda: [x[:, 0].copy() for x in X]}
    orders = [None] + [list(J) for J in itertools.product(*[list(itertools.permutations(range(n)))[:: max(1, n - 1)] for n in cards])]
    for nm, mkx in forms.items():
        for J in orders:
            x = mkx()
            with ctx.op("FunctionalBases.magic_points", nm, J, pure=[H, x], sig=sig):
                P, ind = H.magic_points(x) if J is None else H.magic_points(x, [np.array(j) for j in J])
                ctx.same(len(P), len(f), sig, "points")
                ctx.same(len(ind), len(f), sig, "indices")
                for i in range(len(f)):
                    I = [int(r) for r in np.ravel(ind[i])]
                    ctx.same(len(set(I)), cards[i], sig, "distinct")
                    ctx.close(P[i], X[i][I], sig, msg="points")
                    if J is None:
                        ok = any(greedy(F[i], I, list(jj), "left_right") is None for jj in itertools.permutations(range(cards[i])))
                    else:
                        ok = greedy(F[i][:, list(J[i])], I, list(range(cards[i])), "left") is None
                    ctx.check(ok, sig, "greedy %d" % i)
            ctx.trace()
            ctx.state("lists", f, nm, str(J))


def run_delta(case, ctx):
    for n in range(1, 5):
        mu = tensap.DiscreteRandomVariable(np.arange(n) * 1.5, np.ones(n) / n)
        b = tensap.DeltaFunctionalBasis(np.arange(n) * 1.5)
        v = ref.gen((n,), n)
        with ctx.op("DeltaFunctionalBasis", n, pure=[b], sig="delta"):
            x = np.asarray(b.interpolation_points())
            ctx.same(sorted(np.ravel(x).tolist()), (np.arange(n) * 1.5).tolist(), "delta/points")
            f = b.interpolate(v, (np.arange(n) * 1.5).reshape(-1, 1))
            ctx.close(f.eval((np.arange(n) * 1.5).reshape(-1, 1)).ravel(), v, "delta/interpolate")
        P = tensap.PolynomialFunctionalBasis(mu.orthonormal_polynomials(), range(n))
        for c in np.eye(n):
            fun = lambda z: P.eval(z) @ c   # noqa
            with ctx.op("discrete", n, pure=[P], sig="discrete"):
                f = P.interpolate(fun)
                ctx.close(np.ravel(f.data), c, "discrete/interpolate", tol=1e-8)
        ctx.trace()
        ctx.state("delta", n)


# -- tensor products --------------------------------------------------------------
def evt(f, X):
    """values of the functions of the full tensor-product basis at the rows of X"""
    return colprod([ev(k, X[:, [i]]) for i, k in enumerate(f)], box(f))


def grids(f):
    """name, grid argument, whether the points are exactly the given ones"""
    ex, more = [], []
    for i, k in enumerate(f):
        n = int(MK[k]().cardinal())
        ex.append(cand(k, n, 0 if k in "PB" else i % 2))
        more.append(cand(k, n + 2 + i, i % 2))
    yield "None", None
    for nm, L in (("exact", ex), ("more", more)):
        if all(rank(ev(k, x)) == x.shape[0] or x.shape[0] > MK[k]().cardinal() for k, x in zip(f, L)):
            yield nm, [np.array(x) for x in L]
            yield nm + " grid", tensap.FullTensorGrid([np.array(x) for x in L])
    yield "matrix", np.column_stack([cand(k, 7, i % 2)[:, 0] for i, k in enumerate(f)])


def run_full(case, ctx):
    f = case["f"]
    d = len(f)
    sig = "tensor_product_interpolation"
    cards = [int(MK[k]().cardinal()) for k in f]
    Y = np.column_stack([p[:, 0] for p in pts(f, 5)])
    EY = evt(f, Y)
    I = box(f)
    C = [("e%d" % j, np.eye(len(I))[:, j]) for j in range(len(I))] + [("mix", ref.gen((len(I),), 3)), ("out", None)]
    for gname, gr in grids(f):
        if gname == "None" and "B" in f:
            continue
        H = tensap.FullTensorProductFunctionalBasis(bases(f))
        for name, c in C:
            calls = []

            def fun(z, c=c):
                calls.append(np.array(z))
                return outside(z) if c is None else evt(f, z) @ c
            forms = [("function", fun)]
            if name in ("e0", "mix", "out"):
                forms.append(("UserDefinedFunction", tensap.UserDefinedFunction(fun, d)))
                forms[-1][1].evaluation_at_multiple_points = True
            for kind, fn in forms:
                del calls[:]
                with ctx.op("tensor_product_interpolation", gname, name, kind, pure=[H, gr], sig=sig):
                    with rng.patched(uniform=src(1), normal=gsrc(1)):
                        g, out = H.tensor_product_interpolation(fn) if gr is None else H.tensor_product_interpolation(fn, gr)
                    G = out["grid"]
                    P = [np.ravel(x) for x in G.grids]
                    ctx.same([len(x) for x in P], cards, sig + "/grid")
                    E = [ev(k, x.reshape(-1, 1)) for k, x in zip(f, P)]
                    ctx.check(all(rank(e) == n for e, n in zip(E, cards)), sig + "/grid", "not unisolvent")
                    if gname.startswith("exact"):
                        L = gr if isinstance(gr, list) else gr.grids
                        ctx.same([sorted(x.tolist()) for x in P], [sorted(np.ravel(x).tolist()) for x in L], sig + "/grid", "given points")
                    tot = np.array([i for i in itertools.product(*[range(n) for n in cards])])
                    X = np.column_stack([P[j][tot[:, j]] for j in range(d)])
                    v = outside(X) if c is None else evt(f, X) @ c
                    sc = amp(v) * float(np.prod([amp(np.linalg.inv(e)) * amp(e) for e in E]))
                    ctx.close(np.ravel(g.eval(X)), v, sig, msg="values on the grid", scale=sc, tol=1e-9)
                    if c is not None:
                        ctx.close(np.ravel(g.eval(Y)), EY @ c, sig, msg="function of the space", scale=sc, tol=1e-8)
                        ctx.close([g.tensor.numpy()[i] for i in I], c, sig, msg="coefficients", scale=sc, tol=1e-8)
                    ctx.same(int(out["number_of_evaluations"]), int(np.prod(cards)), sig + "/number_of_evaluations")
                    ctx.same(sum(len(z) for z in calls), int(np.prod(cards)), sig + "/number_of_evaluations", "evaluations requested")
                ctx.trace()
            ctx.state(f, gname, name)
        if gr is None or not gname.startswith("exact"):
            continue
        L = gr if isinstance(gr, list) else gr.grids
        for fmt in ("full", "canonical", "tree", "diagonal"):
            T, D = tensor_of(fmt, cards)
            if T is None:
                continue
            with ctx.op("tensor_product_interpolation", gname, fmt, pure=[H, gr, T], sig=sig + "/tensor"):
                g, out = tensor_interp(f, T, gr, H)
                P = [np.ravel(x) for x in out["grid"].grids]
                E = [ev(k, x.reshape(-1, 1)) for k, x in zip(f, P)]
                sc = amp(D) * float(np.prod([amp(np.linalg.inv(e)) * amp(e) for e in E]))
                for i in np.ndindex(*cards):
                    X = np.array([[P[j][i[j]] for j in range(d)]])
                    ctx.close(float(np.ravel(g.eval(X))[0]), D[i], sig + "/tensor", msg="values on the grid", scale=sc, tol=1e-9)
            ctx.trace()
    whole(ctx, f, cards, I, Y, EY)
    projection_full(ctx, f, I, Y, EY)


def tensor_interp(f, T, gr, H):
    if len(f) == 1:
        return H.tensor_product_interpolation(T, gr)
    return H.bases.tensor_product_interpolation(T, gr)


def tensor_of(fmt, cards):
    d = len(cards)
    if fmt == "full":
        T = tensap.FullTensor(ref.gen(tuple(cards), 2), d, cards)
        return T, T.numpy()
    if d == 1:
        return None, None
    if fmt == "canonical":
        sp = [ref.gen((n, 2), j) for j, n in enumerate(cards)]
        c = ref.gen((2,), 9)
        D = sum(c[r] * functools.reduce(np.multiply, np.ix_(*[s[:, r] for s in sp])) for r in range(2))
        return tensap.CanonicalTensor(sp, c), D
    if fmt == "tree":
        T = tensap.TreeBasedTensor.randn(tensap.DimensionTree.linear(d), [1] + [1] * (2 * d - 2), cards)
        for j, t in enumerate(T.tensors):
            t.data = ref.gen(tuple(np.shape(t.data)), j + 1)
        return T, ref.dense(T)
    if len(set(cards)) > 1:
        return None, None
    c = ref.gen((cards[0],), 5)
    D = np.zeros(cards)
    for i in range(cards[0]):
        D[(i,) * d] = c[i]
    return tensap.DiagonalTensor(c, d), D


def whole(ctx, f, cards, I, Y, EY):
    """points of the multivariate basis as a whole"""
    sig = "FullTensorProductFunctionalBasis"
    H = tensap.FullTensorProductFunctionalBasis(bases(f))
    n = len(I)
    ex = [cand(k, c, 0) for k, c in zip(f, cards)]
    if all(rank(ev(k, x)) == x.shape[0] for k, x in zip(f, ex)):
        grid = tensap.FullTensorGrid([np.array(x) for x in ex])
        X = grid.array()
        more = np.vstack([X, Y])
        for name, x in (("grid", X), ("magic", more)):
            with ctx.op("magic_points/interpolate", name, pure=[H, x], sig=sig):
                if name == "magic":
                    P, ind, _ = H.magic_points(x)
                    ctx.close(P, x[np.ravel(ind)], sig + "/magic_points")
                    x = np.asarray(P)
                E = evt(f, x)
                ctx.check(rank(E) == n, sig + "/magic_points", "not unisolvent")
                for c in list(np.eye(n)) + [None]:
                    fun = (lambda z: outside(z)) if c is None else (lambda z: evt(f, z) @ c)
                    g = H.interpolate(fun, x)
                    sc = amp(fun(x)) * amp(np.linalg.inv(E)) * amp(E)
                    ctx.close(np.ravel(g.eval(x)), fun(x), sig + "/interpolate", msg="values", scale=sc, tol=1e-9)
                    if c is not None:
                        ctx.close(np.ravel(g.eval(Y)), EY @ c, sig + "/interpolate", msg="function of the space", scale=sc, tol=1e-8)
            ctx.trace()
    if "B" not in f:
        with ctx.op("interpolation_points", pure=[H], sig=sig + "/interpolation_points"):
            with rng.patched(uniform=src(2), normal=gsrc(2)):
                P, grid = H.interpolation_points()
            ctx.same([np.size(x) for x in grid], cards, sig + "/interpolation_points")
            ctx.check(rank(evt(f, np.asarray(P))) == n, sig + "/interpolation_points", "not unisolvent")
        with ctx.op("interpolate", pure=[H], sig=sig + "/interpolate(default)"):
            with rng.patched(uniform=src(2), normal=gsrc(2)):
                c = ref.gen((n,), 5)
                g = H.interpolate(lambda z: evt(f, z) @ c)
            sc = amp(c) * amp(np.linalg.inv(evt(f, np.asarray(P)))) * amp(evt(f, np.asarray(P)))
            ctx.close(np.ravel(g.eval(Y)), EY @ c, sig + "/interpolate(default)", scale=sc, tol=1e-8)


RULE = {"L": lambda: U(-1, 1), "l": lambda: U(0, 2), "H": lambda: N(1, 2), "C": lambda: U(0, 1), "S": lambda: U(-1, 1), "W": lambda: U(0, 1), "Q": lambda: U(-1, 1),
        "O": lambda: U(-1, 1), "1": lambda: U(0, 1)}


def rules(k):
    """name, rule exact for products of two functions of the basis"""
    if k in RULE:
        for n in (4, 6):
            yield "gauss%d" % n, RULE[k]().gauss_integration_rule(n)
        return
    kn = np.array({"P": [0.0, 1.0, 2.0], "R": [0.0, 0.5, 2.0], "B": [0.0, 0.5, 1.0, 2.0]}[k])
    x, w = [], []
    for a, c in zip(kn[:-1], kn[1:]):
        t, v = np.polynomial.legendre.leggauss(3)
        x += list((a + c) / 2 + (c - a) / 2 * t)
        w += list((c - a) / 2 * v)
    yield "composite", tensap.IntegrationRule(np.array(x).reshape(-1, 1), np.array(w))


def run_projection(case, ctx):
    k = case["k"]
    b = MK2[k]()
    sig = "projection/" + type(b).__name__
    Y = cand(k, 9, 1)
    EY = ev2(k, Y)
    for name, G in rules(k):
        x = np.reshape(np.asarray(G.points), (-1, 1))
        w = np.ravel(G.weights)
        E = ev2(k, x)
        A = E.T @ (w[:, None] * E)
        for t, c in list(targets(E)) + [("out", None)]:
            fun = (lambda z: outside(np.reshape(z, (-1, 1)))) if c is None else (lambda z, c=c: ev2(k, np.reshape(z, (-1, 1))) @ c)
            v = fun(x)
            want = np.linalg.solve(A, E.T @ (w[(...,) + (None,) * (v.ndim - 1)] * v))
            for how in ("projection", "least_squares_projection") + (("quasi_projection",) if b.is_orthonormal else ()):
                for y in (fun, v):
                    with ctx.op(how, name, t, "values" if y is v else "function", pure=[b, G, v], sig=sig):
                        p = getattr(b, how)(y, G)
                        ctx.close(np.reshape(p.data, want.shape), want, sig, msg="coefficients", scale=amp(want), tol=1e-8)
                        ctx.close(np.reshape(p.eval(Y[:, 0]), (len(Y),) + want.shape[1:]), EY @ want, sig, scale=amp(EY @ want), tol=1e-8)
                    ctx.trace()
            ctx.state(k, name, t)


def projection_full(ctx, f, I, Y, EY):
    if set(f) - set(RULE):
        return
    sig = "tensor_product_projection"
    H = tensap.FullTensorProductFunctionalBasis(bases(f))
    n = len(I)
    for q in ([4] * len(f), [4 + j for j in range(len(f))]):
        R = [RULE[k]().gauss_integration_rule(m) for k, m in zip(f, q)]
        G = tensap.FullTensorProductIntegrationRule(tensap.FullTensorGrid([np.reshape(r.points, (-1, 1)) for r in R]), [np.ravel(r.weights) for r in R])
        for c in list(np.eye(n)) + [ref.gen((n,), 4)]:
            calls = []

            def fun(z, c=c):
                calls.append(len(np.atleast_2d(z)))
                return evt(f, np.atleast_2d(z)) @ c
            u = tensap.UserDefinedFunction(fun, len(f))
            u.evaluation_at_multiple_points = True
            with ctx.op("tensor_product_projection", q, pure=[H, G], sig=sig):
                g, out = H.tensor_product_projection(u, G)
                ctx.close([g.tensor.numpy()[i] for i in I], c, sig, msg="coefficients", tol=1e-7, scale=amp(c))
                ctx.close(np.ravel(g.eval(Y)), EY @ c, sig, tol=1e-7, scale=amp(EY @ c))
                ctx.same(int(out["number_of_evaluations"]), int(np.prod(q)), sig + "/number_of_evaluations")
                ctx.same(sum(calls), int(np.prod(q)), sig + "/number_of_evaluations")
            ctx.trace()


def closed_sets(b):
    """downward closed subsets of a box"""
    def rec(done, todo):
        if not todo:
            if done:
                yield list(done)
            return
        i, rest = todo[0], todo[1:]
        yield from rec(done, rest)
        s = set(done)
        if all(tuple(v - (j == q) for q, v in enumerate(i)) in s for j in range(len(i)) if i[j]):
            yield from rec(done + [i], rest)
    yield from rec([], sorted(b, key=lambda i: (sum(i), i)))


def run_sparse(case, ctx):
    f = case["f"]
    sig = "sparse"
    Y = np.column_stack([p[:, 0] for p in pts(f, 5)])
    for t, S in enumerate(closed_sets(box(f))):
        for order in (S, S[::-1]):
            H = tensap.SparseTensorProductFunctionalBasis(bases(f), tensap.MultiIndices(np.array(order)))
            n = len(S)
            EY = colprod([ev(k, Y[:, [i]]) for i, k in enumerate(f)], order)

            def E(X):
                return colprod([ev(k, X[:, [i]]) for i, k in enumerate(f)], order)
            gs = [("default", None), ("list", [cand(k, 6, i % 2) for i, k in enumerate(f)])]
            if t % 3 == 0:
                gs.append(("grid", tensap.FullTensorGrid([cand(k, 6, i % 2) for i, k in enumerate(f)])))
                gs.append(("matrix", np.column_stack([cand(k, 7, i % 2)[:, 0] for i, k in enumerate(f)])))
            for gname, gr in gs:
                for name, c in [("e%d" % j, np.eye(n)[:, j]) for j in range(n)] + [("vector", ref.gen((n, 2), 1)), ("out", None)]:
                    calls = []

                    def fun(z, c=c):
                        calls.append(len(z))
                        return outside(z) if c is None else E(z) @ c
                    with ctx.op("tensor_product_interpolation", order, gname, name, pure=[H, gr], sig=sig):
                        with rng.patched(uniform=src(1), normal=gsrc(1)):
                            g, out = H.tensor_product_interpolation(fun) if gr is None else H.tensor_product_interpolation(fun, gr)
                        X = np.asarray(out["grid"].array())
                        ctx.same(X.shape, (n, len(f)), sig + "/grid")
                        A = E(X)
                        if not ctx.check(rank(A) == n, sig + "/grid", "not unisolvent"):
                            continue
                        v = outside(X) if c is None else A @ c
                        sc = amp(v) * amp(np.linalg.inv(A)) * amp(A)
                        ctx.close(np.reshape(g.eval(X), v.shape), v, sig, msg="values on the grid", scale=sc, tol=1e-9)
                        if c is not None:
                            ctx.close(np.reshape(g.data, c.shape), c, sig, msg="coefficients", scale=sc, tol=1e-8)
                            ctx.close(np.reshape(g.eval(Y), (len(Y),) + c.shape[1:]), EY @ c, sig, msg="function of the space", scale=sc, tol=1e-8)
                        ctx.same(int(out["number_of_evaluations"]), n, sig + "/number_of_evaluations")
                        ctx.same(sum(calls), n, sig + "/number_of_evaluations")
                    ctx.trace()
            x = np.vstack([np.column_stack([cand(k, 8, s)[:, 0] for k in f]) for s in (0, 1, 2)] + [Y])
            x[8:16, -1] = x[8:16, -1][::-1]
            if rank(E(x)) == n:
                with ctx.op("magic_points", order, pure=[H, x], sig=sig + "/magic_points"):
                    P, ind, _ = H.magic_points(x)
                    ctx.close(P, x[np.ravel(ind)], sig + "/magic_points")
                    ctx.check(len(set(np.ravel(ind).tolist())) == n and rank(E(np.asarray(P))) == n, sig + "/magic_points", "not unisolvent")
                    c = ref.gen((n,), 2)
                    g = H.interpolate(lambda z: E(z) @ c, P)
                    A = E(np.asarray(P))
                    ctx.close(np.ravel(g.data), c, sig + "/interpolate", tol=1e-8, scale=amp(c) * amp(np.linalg.inv(A)) * amp(A))
                with ctx.op("interpolate", order, pure=[H], sig=sig + "/interpolate(default)"):
                    with rng.patched(uniform=src(2), normal=gsrc(2)):
                        g = H.interpolate(lambda z: E(z) @ c)
                    ctx.close(np.ravel(g.data), c, sig + "/interpolate(default)", tol=1e-6, scale=amp(c) * amp(EY))
            ctx.state(f, order)
