"""Function objects: batches, storage histories, grids, partial evaluations, random draws, test errors, compositions, benchmarks."""
import itertools

import numpy as np
import tensap

from .. import ref
from ..core import arr_key

ID = "P21"
BOUNDS = {
    "quick": "every history of at most 3 evaluations over 21 batches of 4 points sharing coordinates, sums and norms or next to each other (single points, ordered pairs with repetition, all) with storage on, "
             "output shapes 1, [2], [2,2], pointwise and batch evaluation, through call, call with return_f and store_eval, caller's input and returned arrays "
             "overwritten between evaluations, points of dimension one given by one-dimensional arrays; full grids (1..3 factors, factors of several variables) and sparse grids; every ordered proper subset of the "
             "variables (dimension 2..3) for partial evaluation with and without measure; every dimension tree of order <= 4 for compositions; every "
             "documented benchmark function with its default and explicit parameters",
    "thorough": "as quick, histories over dimension 1 and 2 inputs, trees of order <= 5 (binary and ternary)",
}
ASSUMPTIONS = ["functions under test are smooth formulas evaluated row by row by the reference"]
PTS = np.array([[0.5, -1.0, 2.0], [0.25, 0.25, -0.5], [1.5, -1.0, 0.75], [-0.25, 1.0, 2.0]])


# points which share coordinates, sums and norms, and a point next to another one
HPTS = {3: np.array([[0.5, -1.0, 2.0], [-1.0, 0.5, 2.0], [0.5, -1.0, -2.0], [0.5, -1.0 - 4e-6, 2.0]]),
        2: np.array([[0.5, -1.0], [-1.0, 0.5], [0.5, 1.0], [0.5, -1.0 - 4e-6]]),
        1: np.array([[0.5], [-1.0], [-0.5], [0.5 + 2e-6]])}


def raw(p):
    """(row) -> 4 numbers, injective enough to tell variables apart"""
    s = sum((k + 1) * v for k, v in enumerate(p))
    q = sum((k + 2) * v * v for k, v in enumerate(p))
    return np.array([np.sin(s) + q, 1 + s * q, np.cos(q) - s, q + 0.5])


def val(p, shape):
    n = int(np.prod(shape))
    v = raw(p)[:n]
    return v[0] if n == 1 else v.reshape(shape)


def want(X, shape):
    return np.array([val(p, shape) for p in X])


class Map:
    """the underlying map; records every point it is evaluated at"""

    def __init__(self, shape, form="array"):
        self.shape, self.form, self.seen = shape, form, []

    def __call__(self, x):
        x = np.atleast_2d(x)
        self.seen += [tuple(p) for p in x]
        y = np.array([val(p, self.shape) for p in x])
        if self.form == "list":
            return list(y.reshape(len(x), -1).T)
        return y


def udf(d, shape, multi, form="array"):
    m = Map(shape, form)
    f = tensap.UserDefinedFunction(m, d) if shape == 1 else tensap.UserDefinedFunction(m, d, shape)
    f.evaluation_at_multiple_points = multi
    return f, m


def batches(npts):
    b = [(i,) for i in range(npts)] + list(itertools.product(range(npts), repeat=2))
    return b + [tuple(range(npts))]


SHAPES = [1, [2], [2, 2]]
TREES = 4


def cases(tier):
    n = 4
    for d in (3,) if tier == "quick" else (1, 2, 3):
        for shape in SHAPES:
            for multi in (False, True):
                for via in ("call", "tuple", "store_eval"):
                    for first in range(len(batches(n))):
                        yield {"k": "hist", "d": d, "shape": shape, "multi": multi, "via": via, "n": n, "first": first}
    for shape in SHAPES[:2]:
        for multi in (False, True):
            for via in ("call", "tuple", "store_eval"):
                for first in range(len(batches(3))):
                    yield {"k": "hist", "d": 1, "shape": shape, "multi": multi, "via": via, "n": 3, "first": first, "flat": True}
    for d in (1, 2, 3):
        for shape in SHAPES:
            for multi in (False, True):
                yield {"k": "batch", "d": d, "shape": shape, "multi": multi}
                yield {"k": "grid", "d": d, "shape": shape, "multi": multi}
                if d > 1:
                    yield {"k": "part", "d": d, "shape": shape, "multi": multi}
            yield {"k": "rand", "d": d, "shape": shape}
            yield {"k": "err", "d": d, "shape": shape}
    for d in (1, 2, 3):
        yield {"k": "string", "d": d}
    yield {"k": "string", "d": 12}
    for d in range(2, TREES + 1 if tier == "quick" else TREES + 2):
        for t in ref.all_trees(range(d)):
            for num in ("bfs", "pre", "post"):
                yield {"k": "comp", "t": t, "num": num}
    for name in BENCH:
        yield {"k": "bench", "name": name}


def tup(t):
    return tuple(tup(s) for s in t) if isinstance(t, (list, tuple)) else t


def run(case, ctx):
    globals()["run_" + case["k"]](case, ctx)


def run_hist(case, ctx):
    d, shape, multi, via, n = (case[k] for k in ("d", "shape", "multi", "via", "n"))
    B = batches(n)
    P = HPTS[d][:n]
    flat = case.get("flat", False)      # the points of dimension one given by a one-dimensional array
    sig = f"{'flat:' * flat}{via}:{'x'.join(map(str, np.atleast_1d(shape)))}"
    for rest in [()] + [(b,) for b in range(len(B))] + list(itertools.product(range(len(B)), repeat=2)):
        f, m = udf(d, shape, multi)
        f.store = via != "store_eval"
        known, hist = set(), [B[case["first"]]] + [B[b] for b in rest]
        ctx.trace(len(hist))
        for step, b in enumerate(hist):
            x = P[list(b)].copy()
            xs, x = x, x[:, 0].copy() if flat else x
            m.seen = []
            with ctx.op("evaluation with storage", str(hist[:step + 1]), sig=sig):
                if via == "store_eval":
                    y, g = f.store_eval(x)
                elif via == "tuple":
                    y, g = f(x, return_f=True)
                else:
                    y, g = f(x), f
                ctx.check(isinstance(y, np.ndarray) or np.isscalar(y), sig + ":type", "the evaluations are not an array")
                ctx.close(y, want(xs, shape), sig=sig, msg=f"values with storage on, batches {hist[:step + 1]}", shape=True)
                ctx.check(g is f, sig + ":self", "the returned function is not the function with the stored evaluations")
                again = [p for p in m.seen if p in known]
                ctx.check(not again, sig + ":again", f"batches {hist[:step + 1]}: evaluated again at a stored point {again[:1]}")
                extra = set(m.seen) - {tuple(p) for p in xs}
                ctx.check(not extra, sig + ":extra", "evaluated outside the requested points")
                known |= {tuple(p) for p in xs}
                x[:] = 77.0
                if isinstance(y, np.ndarray) and y.flags.writeable:
                    y[...] = -55.0
            ctx.state("hist", sig, d, multi, tuple(sorted(known)))


def run_batch(case, ctx):
    d, shape, multi = case["d"], case["shape"], case["multi"]
    for form in ("array", "list") if multi and shape != 1 and len(np.atleast_1d(shape)) == 1 else ("array",):
        f, m = udf(d, shape, multi, form)
        P = PTS[:, :d]
        for r in range(1, 5):
            for b in itertools.product(range(4), repeat=r) if r < 4 else [(0, 1, 2, 3), (3, 2, 1, 0), (1, 1, 2, 0)]:
                X = P[list(b)]
                for name, call in (("call", lambda: f(X)), ("eval", lambda: f.eval(X))):
                    with ctx.op(name, str(b), pure=[X]):
                        y = call()
                        ctx.check(np.shape(y)[0] == r, "batch:rows", "not one row per point")
                        ctx.close(np.reshape(y, np.shape(want(X, shape))), want(X, shape), sig=f"batch:{form}", msg=f"{name} at points {b}")
                ctx.state("batch", d, str(shape), multi, form, b)
    if d == 1:
        f, m = udf(1, shape, multi)
        X = np.array([0.5, -1.0, 2.0])
        with ctx.op("one-dimensional array of points", pure=[X]):
            ctx.close(np.reshape(f(X), np.shape(want(X[:, None], shape))), want(X[:, None], shape), sig="batch:1d", msg="call on a 1-D array")


def run_string(case, ctx):
    d = case["d"]
    P = np.array([[np.sin(1 + 3 * i + 1.7 * k) for k in range(d)] for i in range(4)])
    exprs = {"x0": lambda x: x[0], "2*x0**2 + 1": lambda x: 2 * x[0] ** 2 + 1}
    if d > 1:
        exprs["x0 - 3*x1"] = lambda x: x[0] - 3 * x[1]
        exprs["np.exp(x1)*np.sin(x0)"] = lambda x: np.exp(x[1]) * np.sin(x[0])
    if d > 2:
        exprs["x2*x1 + x0/(2 + x2**2)"] = lambda x: x[2] * x[1] + x[0] / (2 + x[2] ** 2)
    if d > 11:
        exprs["x1 + 2*x10 - x11*x0"] = lambda x: x[1] + 2 * x[10] - x[11] * x[0]
    for s, g in exprs.items():
        for multi in (False, True):
            with ctx.op("string", s, multi):
                f = tensap.UserDefinedFunction(s, d)
                f.evaluation_at_multiple_points = multi
                for r in (1, 2, 4):
                    ctx.close(f(P[:r]), np.array([g(p) for p in P[:r]]), sig="string", msg=f"{s} at {r} points", shape=True)
            ctx.state("string", d, s, multi)
        ctx.trace()


def run_grid(case, ctx):
    d, shape, multi = case["d"], case["shape"], case["multi"]
    parts = {1: [(1,)], 2: [(1, 1), (2,)], 3: [(1, 1, 1), (2, 1), (1, 2), (3,)]}[d]
    for part in parts:
        for sizes in itertools.product((1, 2, 3), repeat=len(part)):
            gr, o = [], 0
            for p, s in zip(part, sizes):
                gr.append(PTS[:s, o:o + p].copy() + 0.1 * np.arange(s)[:, None])
                o += p
            f, m = udf(d, shape, multi)
            with ctx.op("eval_on_tensor_grid", str(part), str(sizes), sig="grid"):
                fx = f.eval_on_tensor_grid(tensap.FullTensorGrid([g.copy() for g in gr]))
                ws = list(sizes) + ([] if shape == 1 else list(shape))
                W = np.zeros(ws)
                for idx in itertools.product(*map(range, sizes)):
                    W[idx] = val(np.concatenate([g[i] for g, i in zip(gr, idx)]), shape)
                got = fx.numpy() if hasattr(fx, "numpy") else fx.data
                ctx.close(np.reshape(got, ws) if got.size == W.size else got, W, sig="grid", msg=f"values on the grid {part} {sizes}")
                ctx.same(list(np.atleast_1d(fx.shape)), ws, sig="grid:shape", msg="shape of the tensor of values")
            ctx.state("grid", d, str(shape), part, sizes)
            if shape == 1:
                for mi in ref_sets(sizes):
                    with ctx.op("eval_on_tensor_grid sparse", str(part), str(mi), sig="sparsegrid"):
                        G = tensap.SparseTensorGrid([g.copy() for g in gr], tensap.MultiIndices(np.array(mi)))
                        fx = f.eval_on_tensor_grid(G)
                        W = np.zeros(sizes)
                        for idx in mi:
                            W[tuple(idx)] = val(np.concatenate([g[i] for g, i in zip(gr, idx)]), 1)
                        ctx.close(ref.dense(fx), W, sig="sparsegrid", msg=f"values on the sparse grid {mi}", shape=True)
                    ctx.state("sparse", d, part, sizes, str(mi))
            ctx.trace()
    if d > 1 and shape == 1:
        # functions given by other classes
        from .p18 import mk
        H = tensap.FunctionalBases(mk("LlH"[:d]))
        B = tensap.FullTensorProductFunctionalBasis(H)
        g = tensap.FunctionalBasisArray(ref.gen((B.cardinal(), 1), 3), B, 1)
        comp = tensap.CompositionalModelFunction(tensap.DimensionTree.linear(d), lambda a, b: a * 2 - np.sin(b), None)
        for F, name in ((g, "basis array"), (comp, "composition")):
            for sizes in itertools.product((1, 2, 3), repeat=d):
                gr = [PTS[:s, k:k + 1].copy() + 0.1 * np.arange(s)[:, None] for k, s in enumerate(sizes)]
                with ctx.op("eval_on_tensor_grid", name, str(sizes), sig="grid:" + name):
                    fx = F.eval_on_tensor_grid(tensap.FullTensorGrid([x.copy() for x in gr]))
                    W = np.zeros(sizes)
                    for idx in itertools.product(*map(range, sizes)):
                        W[idx] = np.ravel(F.eval(np.array([[float(x[i, 0]) for x, i in zip(gr, idx)]])))[0]
                    ctx.close(fx.numpy(), W, sig="grid:" + name, msg=f"values on the grid {sizes}", shape=True)
                ctx.state("gridc", d, name, sizes)


def ref_sets(sizes):
    full = list(itertools.product(*map(range, sizes)))
    out = [[list(i) for i in full if sum(i) <= 1], [list(i) for i in full[::-1]], [list(full[-1])], [list(i) for i in full if sum(i) != 1] or [list(full[0])]]
    return out


def measures(d):
    rv = [tensap.UniformRandomVariable(-1, 1), tensap.NormalRandomVariable(1, 2), tensap.UniformRandomVariable(0, 3)][:d]
    return {"none": None, "random vector": tensap.RandomVector(rv), "product": tensap.ProductMeasure([tensap.LebesgueMeasure(-1, k + 1) for k in range(d)])}


def run_part(case, ctx):
    d, shape, multi = case["d"], case["shape"], case["multi"]
    for na in ref.ordered_subsets(d):
        if not 0 < len(na) < d:
            continue
        al = [k for k in range(d) if k not in na]
        for mname, mu in measures(d).items():
            for form in (list, np.array):
                f, m = udf(d, shape, multi)
                f.measure = mu
                fix = PTS[3:4, list(na)] * 1.5
                sig = f"partial:{mname}"
                with ctx.op("partial_evaluation", str(na), mname, form.__name__, pure=[fix], sig=sig):
                    g = f.partial_evaluation(form(list(na)), fix)
                    ctx.same(int(g.dim), len(al), sig=sig + ":dim", msg="number of remaining variables")
                    if mu is None:
                        ctx.check(g.measure is None, sig + ":measure", "a measure appeared")
                    else:
                        ctx.same(int(g.measure.ndim()), len(al), sig=sig + ":measure", msg="dimension of the marginal measure")
                    for r in (1, 2, 4):
                        X = np.zeros((r, d))
                        X[:, al] = PTS[:r, :len(al)]
                        X[:, list(na)] = fix
                        ctx.close(g(X[:, al]), want(X, shape), sig=sig, msg=f"partial evaluation of variables {na} at {r} points", shape=True)
                ctx.state("part", d, str(shape), multi, tuple(na), mname, form.__name__)
                ctx.trace()


class Fixed(tensap.RandomVector):
    """a random vector drawing the given points"""

    def random(self, n=1):
        self.asked = n
        return PTS[:n, :len(self.random_variables)].copy()


def fixed(d):
    return Fixed([tensap.UniformRandomVariable(-1, 1) for _ in range(d)])


def run_rand(case, ctx):
    d, shape = case["d"], case["shape"]
    for own in (False, True):
        for given in (False, True):
            if not (own or given):
                continue
            for n in (1, 2, 3):
                f, m = udf(d, shape, False)
                mu = fixed(d)
                if own:
                    f.measure = tensap.RandomVector([tensap.NormalRandomVariable() for _ in range(d)]) if given else mu
                with ctx.op("random", n, own, given, sig="random"):
                    y, x = f.random(n, mu) if given else f.random(n)
                    ctx.close(x, PTS[:n, :d], sig="random:points", msg="points drawn from the measure")
                    ctx.close(np.reshape(y, np.shape(want(x, shape))), want(x, shape), sig="random", msg="evaluations at the drawn points")
                ctx.state("random", d, str(shape), own, given, n)
                ctx.trace()


def run_err(case, ctx):
    d, shape = case["d"], case["shape"]
    for n in (1, 2, 3, 4):
        X = PTS[:n, :d]
        F = want(X, shape).reshape(n, -1)
        f, m = udf(d, shape, False)
        for kind in ("values", "function", "function, measure of f", "function, measure of g", "given measure"):
            for s in (0.0, 0.1, 2.0):
                sh = int(np.prod(shape))
                delta = s * np.array([[1.0 + i - 0.5 * j for j in range(sh)] for i in range(n)])
                G = F + delta
                table = {tuple(p): g for p, g in zip(X, G)}
                g = tensap.UserDefinedFunction(lambda x: table[tuple(np.ravel(x))].reshape(np.atleast_1d(shape)), d, shape)
                w2 = np.linalg.norm(F - G) / np.linalg.norm(G)
                wi = np.max(np.linalg.norm(F - G, axis=1)) / np.max(np.linalg.norm(G, axis=1))
                f.measure = g.measure = None
                with ctx.op("test_error", kind, n, s, sig="error:" + kind):
                    if kind == "values":
                        e = f.test_error(G.reshape([n] + list(np.atleast_1d(shape))), X)
                    elif kind == "function":
                        e = f.test_error(g, X)
                    elif kind == "given measure":
                        e = f.test_error(g, n, fixed(d))
                    else:
                        (f if kind.endswith("f") else g).measure = fixed(d)
                        e = f.test_error(g, n)
                    ctx.close(np.array([e[0], e[1]]), np.array([w2, wi]), sig="error:" + kind, msg=f"relative errors on {n} points")
                ctx.state("err", d, str(shape), n, kind, s)
                ctx.trace()


def run_comp(case, ctx):
    T, _ = ref.build_tree(tup(case["t"]), case["num"])
    d = T.dim2ind.size
    P = np.array([[np.sin(1 + 2 * i + 1.3 * k) for k in range(d)] for i in range(4)])
    single = lambda *a: sum((k + 1) * v for k, v in enumerate(a)) + np.prod(a, axis=0)
    many = np.empty(T.nb_nodes, dtype=object)
    for k in range(T.nb_nodes):
        if not T.is_leaf[k]:
            many[k] = (lambda c: lambda *a: sum((j + 1) * v for j, v in enumerate(a)) + c * np.prod(a, axis=0))(k + 0.5)

    def ev(node, p, f):
        ch = list(T.children(node))
        if not ch:
            return p[list(T.dim2ind).index(node)]
        return (f if callable(f) else f[node - 1])(*[ev(c, p, f) for c in ch])

    for name, fun in (("one function", single), ("function per node", many), ("list", list(many))):
        with ctx.op("CompositionalModelFunction", name, sig="composition"):
            F = tensap.CompositionalModelFunction(T, fun, measures(1)["none"])
            ctx.same(int(F.dim), d, sig="composition:dim", msg="number of variables")
            for r in (1, 2, 4):
                ctx.close(F(P[:r]), np.array([ev(T.root, p, fun) for p in P[:r]]), sig="composition", msg=f"composition at {r} points", shape=True)
        ctx.state("comp", str(case["t"]), case["num"], name)
        ctx.trace()


W3 = np.array([0.5, -1.0, 2.0])
C3 = np.array([[1.0, 2.0, 0.5], [0.3, -1.0, 1.0], [0.7, 0.1, -2.0]])
SOB = np.array([1, 2, 5, 10, 20, 50, 100, 500])
BENCH = {
    "borehole": [((), 8, lambda x: 2 * np.pi * x[2] * (x[3] - x[5]) / ((7.71 + 1.0056 * x[1] - np.log(x[0])) * (
        1 + 2 * x[6] * x[2] / ((7.71 + 1.0056 * x[1] - np.log(x[0])) * x[0] ** 2 * x[7]) + x[2] / x[4])))],
    "ishigami": [((), 3, lambda x: np.sin(x[0]) + 7 * np.sin(x[1]) ** 2 + 0.1 * x[2] ** 4 * np.sin(x[0])),
                 ((4, 2.0, 0.5), 4, lambda x: np.sin(x[0]) + 2 * np.sin(x[1]) ** 2 + 0.5 * x[2] ** 4 * np.sin(x[0]))],
    "sin_of_a_sum": [((), 3, lambda x: np.sin(sum(x))), ((2,), 2, lambda x: np.sin(sum(x))), ((3, W3), 3, lambda x: np.sin(x @ W3))],
    "linear_additive": [((), 3, lambda x: sum(x)), ((3, W3), 3, lambda x: x @ W3)],
    "linear_rank_one": [((), 3, lambda x: np.prod(2 * x)), ((3, W3), 3, lambda x: np.prod(W3 + 2 * x))],
    "quadratic_rank_one": [((3, C3), 3, lambda x: np.prod(C3[0] + C3[1] * x + C3[2] * x**2))],
    "canonical_rank_2": [((), 3, lambda x: x[0] * x[1] * x[2] + x[0] ** 2 + x[1])],
    "mixture": [((), 6, lambda x: np.sin(x[0] + x[3]) * np.exp(x[4]) * x[5] + np.sin(x[2] * x[3]) * x[5])],
    "field": [((), 6, lambda x: 1 + np.cos(x[0]) * x[1] + np.sin(x[0]) * x[2] + np.exp(x[0]) * x[3] + x[4] / (x[0] + 1) + x[5] / (2 * x[0] + 3))],
    "oscillatory": [((), 10, None), ((3,), 3, None)],
    "product_peak": [((), 10, None), ((3,), 3, None)],
    "corner_peak": [((), 10, None), ((3,), 3, None)],
    "gaussian": [((), 10, None), ((3,), 3, None)],
    "continuous": [((), 10, None), ((3,), 3, None)],
    "henon_heiles": [((d,) if d != 3 else (), d, lambda x: 0.5 * np.sum(x**2) + sum(0.2 * (x[i] * x[i + 1] ** 2 - x[i] ** 3) + 0.0025 * (
        x[i] ** 2 + x[i + 1] ** 2) ** 2 for i in range(len(x) - 1))) for d in (2, 3, 4)],
    "sobol": [((), 8, lambda x: np.prod((abs(4 * x - 2) + SOB) / (1 + SOB))),
              ((3,), 3, lambda x: np.prod((abs(4 * x - 2) + np.array([1, 2, 4])) / (1 + np.array([1, 2, 4])))),
              ((3, [1.0, 3.0, 0.5]), 3, lambda x: np.prod((abs(4 * x - 2) + np.array([1, 3, 0.5])) / (1 + np.array([1, 3, 0.5]))))],
    "anisotropic": [((), 16, lambda x: x[2] * np.sin(x[3] + x[15]))],
    "polynomial": [((), 16, lambda x: np.prod((3 * x**2 + 1) / 2)), ((3, 3), 3, lambda x: np.prod((3 * x**3 + 1) / 2))],
}


def run_bench(case, ctx):
    name = case["name"]
    for args, d, formula in BENCH[name]:
        sig = "benchmark:" + name
        with ctx.op("multivariate_functions_benchmark", name, str(len(args)), sig=sig):
            f, X = tensap.multivariate_functions_benchmark(name, *args)
            ctx.same(int(X.ndim()), d, sig=sig + ":dim", msg="number of input variables")
            q = 0.5 + 0.4 * np.array([[np.sin(1 + 2.3 * i + 1.7 * k) for k in range(d)] for i in range(4)])
            P = np.array([np.reshape(X.random_variables[k].icdf(q[:, k]), -1) for k in range(d)]).T
            one = np.array([float(np.ravel(f(P[i:i + 1]))[0]) for i in range(4)])
            if formula is not None:
                ctx.close(one, np.array([formula(p) for p in P]), sig=sig, msg="value at one point")
            for r in (2, 3, 4):
                for b in itertools.product(range(4), repeat=r):
                    y = f(P[list(b)])
                    ctx.check(np.size(y) == r, sig + ":rows", f"{np.size(y)} values for {r} points")
                    ctx.close(np.ravel(y), one[list(b)], sig=sig, msg=f"values at the points {b} together")
                    ctx.state(name, len(args), b)
            U = tensap.UserDefinedFunction(f, d)
            ctx.close(U(P), one, sig=sig, msg="as a function object", shape=True)
        ctx.trace()
