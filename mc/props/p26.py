"""Penalised model selection on every small list of models, against the exact lower envelope of the penalised risks."""
import itertools
from fractions import Fraction as Q

import numpy as np
import tensap

from .. import ref, tbt

ID = "P26"
BOUNDS = {
    "quick": "every list of 1..4 models with complexity in {1,2,3,5} and risk in {0,1,2,4} (order and repetitions included), penalty shapes x, x^2 and 3x+1, "
             "gap factors 2 and 1.5, the selection at every breakpoint, between and beyond them; complexities of tree-based tensors on every tree of order <= 3 "
             "and every pattern of active leaves, of functional tensors, of basis expansions and of lists of them",
    "thorough": "as quick with every list of 5 models with complexity in {1,2,4} and risk in {0,1,3}, order 4 trees",
}
ASSUMPTIONS = ["with all complexities equal the slope heuristic selects the first model (documented choice in the code)"]
COMP, RISK = (1, 2, 3, 5), (0, 1, 2, 4)
SHAPES = {"x": lambda x: x, "x^2": lambda x: x**2, "3x+1": lambda x: 3 * x + 1}


def cases(tier):
    pts = list(itertools.product(COMP, RISK))
    for p in pts:
        yield {"k": "path", "head": [p], "tail": 1, "grid": 0}
    for p in itertools.product(pts, repeat=2):
        yield {"k": "path", "head": list(p), "tail": 2, "grid": 0}
    if tier != "quick":
        for p in itertools.product(itertools.product((1, 2, 4), (0, 1, 3)), repeat=2):
            yield {"k": "path", "head": list(p), "tail": 3, "grid": 1}
    for c in tbt.active_cases((2, 3) if tier == "quick" else (2, 3, 4)):
        yield dict(c, k="complexity")
    yield {"k": "basis"}


def run(case, ctx):
    globals()["run_" + case["k"]](case, ctx)


def envelope(comp, risk, pen):
    """exact breakpoints and, per piece, the set of selected (pen, risk) lines"""
    lines = sorted({(Q(pen(c)), Q(r)) for c, r in zip(comp, risk)})
    cur = min(lines, key=lambda l: (l[1], l[0]))
    out, pieces, lam = [], [cur], Q(0)
    while True:
        cand = [((r - cur[1]) / (cur[0] - p), p, r) for p, r in lines if p < cur[0]]
        if not cand:
            return out, pieces
        lam = min(c[0] for c in cand)
        cur = min((p, r) for l, p, r in cand if l == lam)
        out.append(lam)
        pieces.append(cur)


def run_path(case, ctx):
    grid = list(itertools.product(COMP, RISK)) if not case["grid"] else list(itertools.product((1, 2, 4), (0, 1, 3)))
    head = [tuple(p) for p in case["head"]]
    lists = [head] if len(head) == 1 else [head + list(t) for n in range(case["tail"] + 1) for t in itertools.product(grid, repeat=n)]
    for models in lists:
        comp, risk = [m[0] for m in models], [m[1] for m in models]
        for sname, pen in SHAPES.items() if len(models) < 4 else list(SHAPES.items())[:1 + (sum(comp) % 2)]:
            check_list(ctx, models, comp, risk, sname, pen)
        ctx.trace()


def check_list(ctx, models, comp, risk, sname, pen):
    brk, pieces = envelope(comp, risk, pen)
    S = tensap.ModelSelection()
    S.data = {"complexity": list(comp), "empirical_risk": [float(r) for r in risk]}
    S.pen_shape = pen
    lab = str(models)

    def piece(i):
        return [k for k in range(len(models)) if (Q(pen(comp[k])), Q(risk[k])) == pieces[i]]

    def best(l):
        v = [Q(r) + Q(l) * Q(pen(c)) for c, r in zip(comp, risk)]
        return {k for k in range(len(v)) if abs(v[k] - min(v)) <= Q(1, 10**9) * max(1, abs(min(v)))}

    lams = [Q(0)] + [b for b in brk] + [(a + b) / 2 for a, b in zip([Q(0)] + brk, brk)] + [(brk[-1] if brk else Q(1)) * 3]
    with ctx.op("m_lambda", lab, sname, sig="selection"):
        got = S.m_lambda([float(l) for l in lams])
        ctx.same(len(got), len(lams), sig="selection", msg="one model per penalty value")
        for l, g in zip(lams, got):
            ctx.check(int(g) in best(float(l)), "selection", f"models {models}: model {g} does not minimise risk + {float(l)} * {sname}")
    path = mpath = None
    with ctx.op("lambda_path", lab, sname, sig="path"):
        path, mpath = S.lambda_path()
        if not brk:
            ctx.check(set(np.atleast_1d(mpath).tolist()) <= set(piece(0)), "path:single", f"models {models}: path {path}, {mpath}; selected for every penalty: {piece(0)}")
        else:
            w = [float(brk[0]) / 2] + [float(b) for b in brk] + [float(brk[-1]) * 2]
            ctx.close(path, w, sig="path", msg=f"penalty path of {models} with shape {sname}", tol=1e-12, shape=True)
            if len(mpath) == len(w):
                for i, m in enumerate(mpath):
                    ctx.check(int(m) in piece(min(i, len(brk))), "path:model", f"models {models}: after penalty {w[i]} model {m}, expected one of {piece(min(i, len(brk)))}")
            ctx.same(len(mpath), len(w), sig="path:model", msg="one model per value of the path")
    ctx.state(lab, sname)
    if len(set(comp)) == 1:
        with ctx.op("slope_heuristic, equal complexities", lab, sname, sig="slope"):
            ctx.same(int(np.ravel(S.slope_heuristic()[1])[0]), 0, sig="slope:equal", msg="the first model")
        return
    for factor in (2, 1.5):
        S.gap_factor = factor
        for given in (False, True):
            with ctx.op("slope_heuristic", lab, sname, factor, given, sig="slope"):
                lh, mh, p2, m2 = S.slope_heuristic(path, mpath) if given and path is not None else S.slope_heuristic()
                mh = int(np.ravel(mh)[0])
                if brk:
                    jumps = [pieces_comp(pen, comp, pieces[i]) - pieces_comp(pen, comp, pieces[i + 1]) for i in range(len(brk))]
                    ok = [factor * float(b) for b, j in zip(brk, jumps) if j == max(jumps)]
                    ctx.check(any(abs(lh - o) <= 1e-12 * max(1, o) for o in ok), "slope:penalty", f"models {models}: penalty {lh}, expected one of {ok}")
                    ctx.check(mh in best(float(lh)), "slope:model", f"models {models}: model {mh} does not minimise the penalised risk at {lh}")
                    ctx.close(p2, path, sig="slope:path", msg="returned path")
                else:
                    ctx.check(mh in piece(0), "slope:model", f"models {models}: model {mh}, expected {piece(0)}")


def pieces_comp(pen, comp, line):
    return next(c for c in comp if Q(pen(c)) == line[0])


def nodes_params(t):
    """(node number, number of entries, number of non-zero entries, is leaf, rank) of the active nodes"""
    out = []
    leaf = {int(n) for n in np.ravel(t.tree.dim2ind)}
    for n in range(1, t.tree.nb_nodes + 1):
        if t.is_active_node[n - 1]:
            d = np.asarray(t.tensors[n - 1].data)
            out.append((n, d.size, int(np.count_nonzero(d)), n in leaf, d.shape[-1] if n != t.tree.root or d.ndim > len(t.tree.children(n)) else 1))
    return out


def run_complexity(case, ctx):
    t = tbt.make({k: v for k, v in case.items() if k != "k"})
    C = tensap.ModelSelection.complexity
    for n in range(t.tree.nb_nodes):        # some zeros in every core
        if t.is_active_node[n]:
            d = t.tensors[n].data
            d.reshape(-1)[::2] = 0.0
    par = nodes_params(t)
    full = sum(p[1] for p in par)
    sp = sum(p[2] for p in par)
    spl = sum(p[2] if p[3] else p[1] for p in par)
    r = [p[4] for p in par]
    F = tensap.FunctionalTensor(t, [np.ones((1, s)) for s in t.shape])
    for fun, base in ((None, full), ("storage", full), ("sparse_storage", sp), ("sparse_leaves_storage", spl)):
        for ct, sub in (("standard", 0), ("grassman", sum(x * x for x in r)), ("stiefel", sum(x * (x + 1) / 2 for x in r))):
            for name, x in (("tensor", t), ("function", F), ("list", [t, F, t])):
                kw = [dict(), dict(fun=fun)][fun is not None] | (dict(c_type=ct) if ct != "standard" else {})
                with ctx.op("complexity", name, fun, ct, sig=f"complexity:{fun}:{ct}", pure=[t]):
                    w = float(base - sub)
                    ctx.close(C(x, **kw), [w] * 3 if name == "list" else w, sig=f"complexity:{fun}:{ct}", msg=f"complexity of a {name}")
                    ctx.close(tensap.ModelSelection.complexity_tree_based_tensor(x, **kw), [w] * 3 if name == "list" else w,
                              sig=f"complexity:{fun}:{ct}", msg=f"complexity of a {name}")
    ctx.state("complexity", str(case))
    ctx.trace()


def run_basis(case, ctx):
    P = tensap.PolynomialFunctionalBasis(tensap.LegendrePolynomials(), range(5))
    for shape in ([1], [2], [2, 3]):
        for zero in (0, 1, 3):
            c = ref.gen([5] + shape, 1)
            c.reshape(-1)[:zero] = 0
            f = tensap.FunctionalBasisArray(c, P, shape)
            for fun, w in ((None, c.size), ("storage", c.size), ("sparse_storage", np.count_nonzero(c))):
                kw = {} if fun is None else {"fun": fun}
                with ctx.op("complexity", str(shape), zero, fun, sig=f"complexity:basis:{fun}"):
                    ctx.same(int(tensap.ModelSelection.complexity(f, **kw)), int(w), sig=f"complexity:basis:{fun}", msg="complexity of a basis expansion")
                    ctx.same(int(tensap.ModelSelection.complexity_functional_basis_array(f, **kw)), int(w), sig=f"complexity:basis:{fun}", msg="complexity of a basis expansion")
                    ctx.same([int(v) for v in tensap.ModelSelection.complexity([f, f], **kw)], [int(w)] * 2, sig=f"complexity:basis:{fun}", msg="complexity of a list")
                ctx.state("basis", str(shape), zero, fun)
    ctx.trace()
