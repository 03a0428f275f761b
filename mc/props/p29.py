"""Figures: the drawings of trees, grids, measures and bases carry the data of the object."""
import itertools
import os
import shutil
import tempfile
import warnings

import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np
import tensap

from .. import ref, tbt
from ..trees import M

ID = "P29"
BOUNDS = {
    "quick": "every rooted tree without unary node on 2..4 labelled leaves (2 numberings), with and without level alignment: layout, drawing of the nodes, of the dimensions of every subset "
             "of leaves, colouring of every node and pair of nodes; tree-based tensors of order 2 and 3 with every choice of active leaves; full and sparse grids in dimension 1..4 over 5 "
             "one-dimensional grids; pdf, cdf, icdf of continuous, empirical and discrete variables (every order of up to 3 of 4 atoms, weights in {1,2,3}) and discrete measures; one-dimensional bases "
             "with every subset of their functions; curves and surfaces of univariate and bivariate functions of every class over every pair of resolutions in {3,4,5,7}",
    "thorough": "as quick with trees on 5 leaves",
}
ASSUMPTIONS = ["figures are read from the artists created by matplotlib with the Agg backend"]
ATOMS = (-2.0, 0.0, 0.5, 3.25)
GRIDS = ([0.0, 1.0], [2.0, -1.0, 0.5], [3.0], [-1.0, 0.0, 0.25, 4.0], [1.0, 1.5])
R = {"U": lambda: tensap.UniformRandomVariable(-1, 2.5), "N": lambda: tensap.NormalRandomVariable(1.0, 0.5), "E": lambda: tensap.EmpiricalRandomVariable(np.array([2.0, -1.0, 0.5, 4.0, 4.5])),
     "U01": lambda: tensap.UniformRandomVariable(0, 1)}
BASES = {"legendre": lambda: tensap.PolynomialFunctionalBasis(tensap.LegendrePolynomials(), range(4)), "hermite": lambda: tensap.PolynomialFunctionalBasis(tensap.HermitePolynomials(), range(3)),
         "shifted": lambda: tensap.PolynomialFunctionalBasis(tensap.UniformRandomVariable(2, 3).orthonormal_polynomials(), [0, 2])}


def cases(tier):
    q = tier == "quick"
    for d in (2, 3, 4) if q else (2, 3, 4, 5):
        for t in ref.all_trees(range(d)):
            for num in ("bfs", "post"):
                yield {"kind": "tree", "t": t, "num": num, "d": d}
    for c in tbt.active_cases((2, 3)):
        yield dict(c, kind="tbt")
    for d in (1, 2, 3, 4):
        for sel in itertools.product(range(len(GRIDS)), repeat=d) if d < 3 else [tuple((i * k + k) % 5 for k in range(1, d + 1)) for i in range(5)]:
            yield {"kind": "grid", "sel": list(sel)}
    for n in (1, 2, 3):
        for v in itertools.permutations(ATOMS, n):
            yield {"kind": "discrete", "v": list(v)}
    for r in R:
        yield {"kind": "variable", "r": r}
    for b in BASES:
        yield {"kind": "basis", "b": b}
    for b in range(len(CURVES)):
        yield {"kind": "curve", "f": b}
    for b in range(len(SURFACES)):
        yield {"kind": "surface", "f": b}


def run(case, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            globals()["run_" + case["kind"]](case, ctx)
        finally:
            plt.close("all")


def curves(n=None):
    """(x, y) of the curves of the current axes"""
    out = [(np.asarray(l.get_xdata(), dtype=float), np.asarray(l.get_ydata(), dtype=float)) for l in plt.gca().get_lines()]
    return out


def segments():
    return [np.asarray(s, dtype=float) for c in plt.gca().collections if isinstance(c, matplotlib.collections.LineCollection) for s in c.get_segments()]


def texts():
    return [(t.get_text(), tuple(float(v) for v in t.get_position())) for t in plt.gca().texts]


def dots(ax=None):
    """positions of the nodes by face colour"""
    out = {}
    for c in (ax or plt.gca()).collections:
        if isinstance(c, matplotlib.collections.PathCollection):
            f = np.round(np.atleast_2d(c.get_facecolor()), 3)
            for i, q in enumerate(c.get_offsets()):
                out.setdefault(tuple(f[i % len(f)][:3]), []).append(tuple(float(v) for v in q))
    return out


# -- trees ---------------------------------------------------------------------
def check_layout(ctx, pos, m, sig, align):
    ctx.same(sorted(int(k) for k in pos), list(range(len(m.nodes))), sig, "nodes placed")
    p = {n: np.asarray(pos[n - 1], dtype=float) for n in m.nodes}
    ctx.check(all(v.shape == (2,) and np.all(np.isfinite(v)) for v in p.values()), sig, "positions %s" % pos)
    ctx.check(all(0 <= v[0] <= 1 and 0 <= v[1] <= 1 for v in p.values()), sig, "position outside the figure")
    leaves = sorted(m.leafdim)
    xs = sorted(p[n][0] for n in leaves)
    ctx.check(all(b - a > 1e-9 for a, b in zip(xs, xs[1:])), sig, "leaves one above the other")
    for n in m.nodes:
        for c in m.children[n]:
            ctx.check(p[n][1] > p[c][1] + 1e-9, sig, "node %d is not above its child %d" % (n, c))
        below = [k for k in m.descendants(n) if k in m.leafdim]
        if below:
            x = [p[k][0] for k in below]
            ctx.check(min(x) - 1e-9 <= p[n][0] <= max(x) + 1e-9, sig, "node %d is not above its leaves" % n)
            ctx.check(not any(min(x) < p[k][0] < max(x) for k in leaves if k not in below), sig, "branches cross at node %d" % n)
    if align:
        for a in m.nodes:
            for b in m.nodes:
                if m.level[a] == m.level[b]:
                    ctx.check(abs(p[a][1] - p[b][1]) < 1e-9, sig, "nodes %d and %d of one level have different heights" % (a, b))
    return p


def check_drawing(ctx, p, m, sig, labels, coloured=(), color="red"):
    t = texts()
    want = {n: labels[n] for n in m.nodes}
    ctx.same(sorted(a for a, _ in t if a), sorted(str(v) for v in want.values() if v not in (None, "")), sig, "labels")
    for n, v in want.items():
        if v in (None, ""):
            continue
        ctx.check(any(a == str(v) and abs(q[0] - p[n][0]) < 1e-9 and abs(q[1] - p[n][1]) < 0.5 for a, q in t), sig, "label %s of node %d: %s" % (v, n, t))
    seg = sorted(tuple(sorted(tuple(np.round(x, 9)) for x in s)) for s in segments())
    ctx.same(seg, sorted(tuple(sorted((tuple(np.round(p[n], 9)), tuple(np.round(p[c], 9))))) for n in m.nodes for c in m.children[n]), sig, "edges")
    d = dots()
    rgb = tuple(np.round(matplotlib.colors.to_rgb(color), 3))
    allp = sorted(tuple(np.round(x, 9)) for v in d.values() for x in v)
    ctx.same(sorted(set(allp)), sorted(set(tuple(np.round(x, 9)) for x in p.values())), sig, "nodes drawn")
    ctx.same(sorted(set(tuple(np.round(x, 9)) for x in d.get(rgb, []))), sorted(set(tuple(np.round(p[n], 9)) for n in coloured)), sig, "coloured nodes")


def run_tree(case, ctx):
    T, _ = ref.build_tree(tbt.tup(case["t"]), case["num"])
    m = M.of(T)
    n, d = len(m.nodes), case["d"]
    scratch = tempfile.mkdtemp()
    try:
        for align in (False, True):
            T.plot_options["level_alignment"] = align
            with ctx.op("tree_layout", align, pure=[T], sig="layout"):
                pos = T.tree_layout()
                p = check_layout(ctx, pos, m, "layout", align)
            ctx.trace()
            ctx.state(case["t"], case["num"], align)
            full = d < 4 and not align
            with ctx.op("plot", align, pure=[T], sig="tree/plot"):
                T.plot()
                check_drawing(ctx, p, m, "tree/plot", {k: k for k in m.nodes})
            plt.close("all")
            sets = [list(s) for r in (1, 2) for s in itertools.combinations(m.nodes, r)] if full else [[1], [m.root, n]]
            for s in sets:
                for form in (np.array, list):
                    with ctx.op("plot coloured", align, s, form.__name__, pure=[T], sig="tree/coloured"):
                        T.plot(colored_nodes=form(s), node_color="blue", title="a tree")
                        check_drawing(ctx, p, m, "tree/coloured", {k: k for k in m.nodes}, s, "blue")
                        ctx.same(plt.gca().get_title(), "a tree", "tree/coloured", "title")
                    plt.close("all")
                    ctx.trace()
            with ctx.op("plot_dims", align, pure=[T], sig="tree/dims"):
                T.plot_dims()
                check_drawing(ctx, p, m, "tree/dims", {k: m.leafdim.get(k) for k in m.nodes})
            plt.close("all")
            leaves = [int(v) for v in T.dim2ind]
            for r in range(1, d + 1) if full else (1,):
                for s in itertools.combinations(leaves, r):
                    for form in (np.array, list):
                        with ctx.op("plot_dims", align, s, form.__name__, pure=[T], sig="tree/some dims"):
                            T.plot_dims(nodes=form(s))
                            check_drawing(ctx, p, m, "tree/some dims", {k: m.leafdim[k] if k in s else None for k in m.nodes})
                        plt.close("all")
                        ctx.trace()
            labels = [None if k % 3 == 0 else "n%d" % k for k in m.nodes]
            name = os.path.join(scratch, "tree.png")
            with ctx.op("plot_with_labels_at_nodes", align, pure=[T, labels], sig="tree/labels"):
                T.plot_with_labels_at_nodes(labels, colored_nodes=np.array([1]), fname=name)
                check_drawing(ctx, p, m, "tree/labels", dict(zip(m.nodes, labels)), [1])
                if full:
                    ctx.check(os.path.getsize(name) > 0, "tree/labels", "file not written")
            plt.close("all")
    finally:
        shutil.rmtree(scratch)


def run_tbt(case, ctx):
    T, _ = ref.build_tree(tbt.tup(case["t"]), case["num"])
    m = M.of(T)
    act = tbt.activity(T, case["act"])
    x = ref.make_tbt(T, [2, 3, 2][:len(m.leafdim)], [1 if a else 0 for a in act], act)
    p = {n: np.asarray(v) for n, v in zip(m.nodes, [T.tree_layout()[k] for k in range(len(m.nodes))])}
    ctx.trace()
    ctx.state(case["t"], case["act"])
    with ctx.op("plot", pure=[x], sig="tensor/plot"):
        x.plot(title="t")
        check_drawing(ctx, p, m, "tensor/plot", {k: k for k in m.nodes}, [i + 1 for i, a in enumerate(act) if a])
    plt.close("all")
    labels = ["r%d" % k for k in m.nodes]
    with ctx.op("plot labels", pure=[x, labels], sig="tensor/labels"):
        x.plot(labels)
        check_drawing(ctx, p, m, "tensor/labels", dict(zip(m.nodes, labels)), [i + 1 for i, a in enumerate(act) if a])


# -- grids ---------------------------------------------------------------------
def run_grid(case, ctx):
    g = [np.array(GRIDS[i]) for i in case["sel"]]
    d = len(g)
    A = np.array([[g[k][i[k]] for k in range(d)] for i in itertools.product(*[range(len(x)) for x in g])])
    rows = sorted(map(tuple, A))
    forms = [("full", tensap.FullTensorGrid(g), rows)]
    I = tensap.MultiIndices(np.array([i for i in itertools.product(*[range(min(2, len(x))) for x in g]) if sum(i) < 2]))
    forms.append(("sparse", tensap.SparseTensorGrid(g, I), sorted(tuple(g[k][int(r[k])] for k in range(d)) for r in I.array)))
    for name, G, want in forms:
        ctx.trace()
        ctx.state(case["sel"], name)
        sig = "grid/" + name
        with ctx.op("plot_grid", name, pure=[G], sig=sig):
            if d > 3:
                try:
                    G.plot_grid()
                    ctx.fail(sig, "no error in dimension 4")
                except ValueError:
                    pass
            else:
                G.plot_grid("o") if d < 3 else G.plot_grid()
                if d < 3:
                    c = curves()
                    ctx.same(len(c), 1, sig, "one curve")
                    got = sorted(zip(*c[0])) if d == 2 else sorted((v,) for v in c[0][1])
                else:
                    s = [c for c in plt.gca().collections][0]._offsets3d
                    got = sorted(zip(*[np.asarray(v, dtype=float) for v in s]))
                ctx.close(np.array(got), np.array(want), sig, msg="points")
        plt.close("all")
        if name == "full" and d <= 4:
            y = ref.gen((len(A),), 3)
            sig = "grid/values"
            with ctx.op("plot", name, pure=[G, y], sig=sig):
                if d > 2:
                    try:
                        G.plot(y)
                        ctx.fail(sig, "no error in dimension %d" % d)
                    except ValueError:
                        pass
                else:
                    pts = np.asarray(G.array())
                    G.plot(y)
                    if d == 1:
                        got = sorted(zip(*curves()[0]))
                        ctx.close(np.array(got), np.array(sorted(zip(pts[:, 0], y))), sig, msg="values")
                    else:
                        s = [c for c in plt.gca().collections][0]._offsets3d
                        ctx.close(np.array(sorted(zip(*[np.asarray(v, dtype=float) for v in s]))), np.array(sorted(zip(pts[:, 0], pts[:, 1], y))), sig, msg="values")
            plt.close("all")


# -- measures --------------------------------------------------------------------
def run_discrete(case, ctx):
    v = np.array(case["v"])
    for w in itertools.product((1, 2, 3), repeat=len(v)):
        p = np.array(w) / sum(w)
        mass = dict(zip(v, p))
        for X, weights, kind in ((tensap.DiscreteRandomVariable(v, p), mass, "variable"), (tensap.DiscreteMeasure(v, np.array(w, dtype=float)), dict(zip(v, w)), "measure")):
            ctx.trace()
            ctx.state(case["v"], w, kind)
            sig = "discrete/" + kind
            with ctx.op("plot", kind, w, pure=[X], sig=sig + "/pdf"):
                X.plot("pdf") if kind == "variable" else X.plot()
                s = sorted((float(q[0, 0]), float(abs(q[1, 1] - q[0, 1]))) for q in segments())
                ctx.close(np.array(s), np.array(sorted(weights.items())), sig + "/pdf", msg="masses")
                ctx.check(all(q[0, 0] == q[1, 0] for q in segments()), sig + "/pdf", "not vertical")
            plt.close("all")
            if kind == "measure":
                continue
            with ctx.op("plot cdf", w, pure=[X], sig=sig + "/cdf"):
                X.plot("cdf")
                line = plt.gca().get_lines()[0]
                x, y = (np.asarray(a, dtype=float) for a in (line.get_xdata(), line.get_ydata()))
                where = line.get_drawstyle()
                ctx.check(np.all(np.diff(x) >= 0), sig + "/cdf", "abscissae not increasing: %s" % x)
                for t in sorted(v):
                    for e in (-0.05, 0.05):
                        i = int(np.searchsorted(x, t + e))          # x[i-1] < t+e <= x[i]
                        if not 0 < i < len(x):
                            continue
                        got = {"steps-pre": y[i], "steps": y[i], "steps-post": y[i - 1]}.get(where, np.nan)
                        ctx.close(float(got), float(sum(q for u, q in mass.items() if u <= t + e)), sig + "/cdf", msg="at %s" % (t + e))
            plt.close("all")
            with ctx.op("plot icdf", w, pure=[X], sig=sig + "/icdf"):
                X.plot("icdf")
                u, y = curves()[0]
                o = sorted(mass)
                cum = np.cumsum([mass[a] for a in o])
                ok = [True if abs(min(abs(cum - t))) < 1e-9 or t == 0 else o[int(np.searchsorted(cum, t))] == s for t, s in zip(u, y)]
                ctx.check(all(ok), sig + "/icdf", "quantiles drawn")
            plt.close("all")


def run_variable(case, ctx):
    X = R[case["r"]]()
    lo, hi = np.ravel(X.truncated_support())
    for quantity, (a, b) in {"pdf": (lo, hi), "cdf": (lo, hi), "icdf": (0, 1)}.items():
        for n in (2, 5, 100):
            for bar in (False, True):
                for how in ("plot", quantity + "_plot"):
                    if how != "plot" and (bar or n != 100 or not hasattr(X, how)):
                        continue
                    sig = "variable/" + quantity
                    ctx.trace()
                    ctx.state(case["r"], quantity, n, bar, how)
                    with ctx.op(how, quantity, n, bar, pure=[X], sig=sig):
                        X.plot(quantity, n, bar) if how == "plot" else getattr(X, how)()
                        want_x = np.linspace(a, b, n)
                        want = np.ravel(np.asarray(getattr(X, quantity)(want_x), dtype=float))
                        if bar:
                            got = sorted((r.get_x() + r.get_width() / 2, r.get_y() + r.get_height()) for r in plt.gca().patches)
                            x, y = np.array(got).T
                        else:
                            x, y = curves()[0]
                        ctx.close(x, want_x, sig, msg="abscissae", tol=1e-8)
                        keep = np.isfinite(want)
                        ctx.close(np.asarray(y)[keep], want[keep], sig, msg="values", tol=1e-8)
                    plt.close("all")


def run_basis(case, ctx):
    B = BASES[case["b"]]()
    N = int(B.cardinal())
    lo, hi = np.ravel(B.measure.truncated_support())
    pts = np.linspace(lo, hi, 7)[[0, 3, 1, 6]]
    for n in (3, 11, pts):
        x = np.linspace(lo, hi, n) if np.size(n) == 1 else n
        E = np.asarray(B.eval(x))
        for idx in [None] + [list(s) for r in range(1, N + 1) for s in itertools.combinations(range(N), r)] + [[N - 1, 0]]:
            sig = "basis"
            ctx.trace()
            ctx.state(case["b"], np.size(n), idx)
            with ctx.op("plot", idx, np.size(n), pure=[B, idx, n], sig=sig):
                B.plot(idx, n)
                c = curves()
                want = E if idx is None else E[:, idx]
                ctx.same(len(c), want.shape[1], sig, "number of curves")
                for k, (a, b) in enumerate(c):
                    ctx.close(a, x, sig, msg="abscissae")
                    ctx.close(b, want[:, k], sig, msg="function %d" % k)
            plt.close("all")


# -- functions -------------------------------------------------------------------
def _user(f, dim, m):
    g = tensap.UserDefinedFunction(f, dim)
    g.measure = m
    return g


def _basis(k, m):
    return tensap.PolynomialFunctionalBasis(m.orthonormal_polynomials(), range(k))


def _with(f, m):
    f.measure = m
    return f


def _bases(m):
    return tensap.FunctionalBases([_basis(2, m[0]), _basis(3, m[1])])


U = tensap.UniformRandomVariable
CURVES = (lambda: _user(lambda x: np.ravel(x) ** 2 - np.ravel(x), 1, U(-1, 2.5)),
          lambda: _with(tensap.FunctionalBasisArray(ref.gen((3,), 5), _basis(3, U(-1, 2.5))), U(-1, 2.5)),
          lambda: _with(tensap.FunctionalBasisArray(ref.gen((3,), 5), _basis(3, tensap.NormalRandomVariable(1.0, 0.5))), tensap.NormalRandomVariable(1.0, 0.5)))
PAIRS = ((U(0, 1), U(-1, 3)), (U(2, 5), tensap.NormalRandomVariable(0.0, 0.5)))
SURFACES = tuple(f for p in PAIRS for f in (
    lambda p=p: _user(lambda x: x[:, 0] + 10 * x[:, 1] ** 2, 2, tensap.RandomVector(list(p))),
    lambda p=p: _user(lambda x: x[:, 0] - 3 * x[:, 0] * x[:, 1], 2, tensap.ProductMeasure(list(p))),
    lambda p=p: tensap.FunctionalTensor(tensap.FullTensor(ref.gen((2, 3), 3), 2, [2, 3]), _bases(p)),
    lambda p=p: _with(tensap.FunctionalBasisArray(ref.gen((6,), 4), tensap.FullTensorProductFunctionalBasis(_bases(p))), tensap.ProductMeasure(list(p)))))


def run_curve(case, ctx):
    F = CURVES[case["f"]]()
    F.dim = 1
    s = np.ravel(F.measure.truncated_support())
    for sup in (None, [0.0, 1.0], np.array([-2.0, 0.5])):
        for n in (2, 5, 100):
            with ctx.op("fplot", sup, n, pure=[F, sup], sig="function/fplot"):
                ctx.trace()
                ctx.state("curve", case["f"], n, str(sup))
                F.fplot(sup, n)
                a, b = s if sup is None else sup
                x = np.linspace(a, b, n)
                c = curves()
                ctx.same(len(c), 1, "function/fplot", "one curve")
                ctx.close(c[0][0], x, "function/fplot", msg="abscissae")
                ctx.close(c[0][1], np.ravel([float(np.ravel(F.eval(np.array([[t]])))[0]) for t in x]), "function/fplot", msg="values")
            plt.close("all")


def run_surface(case, ctx):
    import mpl_toolkits.mplot3d
    from unittest import mock
    F = SURFACES[case["f"]]()
    F.dim = 2
    s = [np.ravel(v) for v in F.measure.truncated_support()]
    for n in [3, 5] + [list(p) for p in itertools.product((3, 4, 5, 7), repeat=2)] + [np.array([4, 6])]:
        drawn = []
        nn = [n, n] if np.ndim(n) == 0 else n
        with ctx.op("surf", n, pure=[F, n], sig="function/surf"), \
                mock.patch.object(mpl_toolkits.mplot3d.Axes3D, "plot_surface", lambda self, X, Y, Z, *a, **k: drawn.append((X, Y, Z))):
            ctx.trace()
            ctx.state("surface", case["f"], list(nn))
            F.surf(n)
            ctx.same(len(drawn), 1, "function/surf", "one surface")
            x, y, z = np.broadcast_arrays(*[np.asarray(v, dtype=float) for v in drawn[0]])
            got = sorted(zip(np.ravel(x), np.ravel(y), np.ravel(z)))
            g = [np.linspace(s[k][0], s[k][1], nn[k])[1:-1] for k in range(2)]
            want = sorted((a, b, float(np.ravel(F.eval(np.array([[a, b]])))[0])) for a in g[0] for b in g[1])
            ctx.close(np.array(got), np.array(want), "function/surf", msg="points of the surface")
            # a surface: neighbours in the arrays are neighbours in the plane
            ctx.check(np.ndim(x) == 2 and sorted(np.shape(x)) == sorted(len(v) for v in g), "function/surf", "shape")
        plt.close("all")
