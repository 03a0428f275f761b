"""Optimisation of the dimension tree and of the leaves under every sequence of random proposals up to a bound."""
import itertools

import numpy as np
import tensap

from .. import ref, rng, tbt

ID = "P28"
BOUNDS = {
    "quick": "tensors of order 2..4 whose ranks are low on another assignment of the leaves, on every tree of order <= 3 and every tree shape of order 4, 4 patterns "
             "of inactive leaves (2 at order 4), root rank 1 and 2, tolerances 1e-10 and 0.2, and tensors with many singular values of similar size on every tree shape of order 4 and two of order 5, tolerance 0.4; both optimisations, 1 and 3 iterations (2 at order 4); every outcome of "
             "the first 6 random draws with at most 2 of them not the first possible one, later draws cycling through the possible outcomes; every permutation of the leaves and every exchange of two nodes of four full-rank tensors on every tree shape "
             "of order 3 and 4 (two of order 5, some permutations) for 15 tolerances (8 from order 4 on) from 0.02 to 0.9",
    "thorough": "as quick with every pattern of inactive leaves at order 3 (3 at order 4), 1, 2, 3 and 5 iterations, 8 branching draws with at most 3 deviations, "
                "and every tree shape of order 5 (6 draws, 2 deviations)",
}
POINTS = {"quick": {2: (6, 2), 3: (6, 2), 4: (6, 2), 5: (6, 2)}, "thorough": {2: (8, 3), 3: (8, 3), 4: (8, 3), 5: (6, 2)}}   # order: (branching draws, deviations)
ASSUMPTIONS = ["random proposals are drawn by numpy.random; each draw may return any value of positive probability"]

FLAT5 = [(0, (1, (2, (3, 4)))), ((0, 1), (2, (3, 4)))]


def cases(tier):
    thorough = tier != "quick"
    for d in (2, 3, 4, 5) if thorough else (2, 3, 4):
        for t in ref.unlabelled_shapes(d) if d != 3 else ref.all_trees(range(d)):
            ms = {2: tbt.masks(2), 3: tbt.masks(3) if thorough else [(1, 1, 1), (0, 1, 1), (1, 0, 1), (0, 0, 0)]}.get(
                d, [(1,) * d, (0,) + (1,) * (d - 1), (1, 0) * (d // 2) + (0,) * (d % 2)][:3 if thorough else 2])
            for m in ms:
                for what in ("tree", "leaves"):
                    for i, (tol, perm) in enumerate(itertools.product((1e-10, 0.2), perms(d)) if thorough else zip((1e-10, 0.2), perms(d)[-2:])):
                        for iters in ((1, 2, 3, 5) if d < 5 else (2,)) if thorough else ((1, 3) if d < 4 else (2,)):
                            yield {"t": t, "num": "bfs", "act": list(m), "what": what, "tol": tol, "perm": perm, "iters": iters, "tier": tier}
    for d in (4, 5):
        for t in ref.unlabelled_shapes(d):
            if d == 5 and not thorough and t not in FLAT5:
                continue
            for what in ("tree", "leaves"):
                for i, tol in enumerate((0.3, 0.5) if thorough else (0.4,)):
                    yield {"t": t, "num": "bfs", "act": [1] * d, "what": what, "tol": tol, "flat": 2 + i, "iters": 3, "tier": tier}
    for t in ref.all_trees(range(3)):
        for what in ("tree", "leaves"):
            for num in ("pre", "post"):
                yield {"t": t, "num": num, "act": [1, 0, 1], "what": what, "tol": 1e-10, "perm": [0, 2, 1], "iters": 2, "root": 2, "tier": tier}


    for d in (3, 4, 5):
        for t in ref.unlabelled_shapes(d) if d < 5 else FLAT5:
            for n, amp, seed in EXCH:
                for act in ([1] * d, [0] + [1] * (d - 1)) if d < 5 else ([1] * d,):
                    yield {"t": t, "num": "bfs", "act": act, "what": "exchange", "n": n, "amp": amp, "seed": seed, "tier": tier}


EXCH = [(2, 1.0, 0), (2, 0.3, 1), (3, 0.3, 2), (3, 0.1, 3)]
TOLS = [0.02 * 1.31 ** k for k in range(15)]


def run_exchange(case, ctx):
    """Permutations of the leaves and exchanges of two nodes with a given tolerance."""
    T, _ = ref.build_tree(tbt.tup(case["t"]), case["num"])
    d, n = len(T.dim2ind), case["n"]
    A = np.sin(np.arange(1, n ** d + 1) * (1.7 + 0.37 * case["seed"]) + np.arange(n ** d) ** 2 * 0.113).reshape((n,) * d) * case["amp"]
    one = np.ones((n,) * d)
    for k in range(d):
        one = one * ref.gen(tuple(n if j == k else 1 for j in range(d)), 11 + k)
    A = A + one / np.abs(one).max()
    x = tensap.Truncator(1e-14).hsvd(tensap.FullTensor(A), T)
    off = [int(T.dim2ind[k]) for k in range(d) if not case["act"][k]]
    if off:
        x = x.inactivate_nodes(off)
    thorough = case["tier"] != "quick"
    ps = [p for p in itertools.permutations(range(d)) if p != tuple(range(d))]
    if d == 5:
        ps = [p for p in ps if all(i != j for i, j in enumerate(p))][::1 if thorough else 6]
    for p in ps:
        ctx.trace()
        for tol in TOLS if thorough or d < 4 else TOLS[::2]:
            with ctx.op("permute_leaves", p, tol, pure=[x], sig="permute_leaves"):
                near(ctx, x.permute_leaves(np.array(p), tol), A, tol, "permute_leaves")
    for a, b in itertools.combinations(range(1, T.nb_nodes + 1), 2):
        if T.root in (a, b) or a in T.ascendants(b) or b in T.ascendants(a):
            continue
        ctx.trace()
        for tol in TOLS if thorough or d < 4 else TOLS[1::2]:
            with ctx.op("permute_nodes", a, b, tol, pure=[x], sig="permute_nodes"):
                near(ctx, x.permute_nodes([a, b], tol), A, tol, "permute_nodes")


def near(ctx, y, A, tol, sig):
    D = ref.dense(y)
    e = np.linalg.norm(D - A) / np.linalg.norm(A) if np.shape(D) == A.shape else np.inf
    ctx.check(e <= tol * (1 + 1e-6), sig + ":tolerance", f"relative error {e:.3g} for the tolerance {tol:.3g}")
    ctx.state(sig, ref.tree_key(y.tree), [int(r) for r in y.ranks])


def perms(d):
    if d == 2:
        return [[0, 1]]
    if d == 3:
        return [[0, 1, 2], [0, 2, 1], [2, 1, 0]]
    return [[0, 2, 1] + list(range(3, d)), list(range(d))[::-1]]


def low_rank(d, perm, shape):
    """products over consecutive (permuted) pairs, a decaying second term, a small third one"""
    out = 0.0
    pairs = [perm[i:i + 2] for i in range(0, d, 2)]
    for k, amp in enumerate((1.0, 0.15, 0.01)):
        v = np.ones(shape)
        for j, p in enumerate(pairs):
            s = [shape[i] if i in p else 1 for i in range(d)]
            v = v * ref.gen(tuple(s), 5 * k + j)
        out = out + amp * v
    return out


def build(case):
    t = tbt.tup(case["t"])
    T, _ = ref.build_tree(t, case["num"])
    d = len(T.dim2ind)
    shape = (3, 4, 3, 2, 2)[:d] if d > 2 else (3, 4)
    if "flat" in case:      # many singular values of similar size: every exchange truncates near its share of the tolerance
        x = tensap.Truncator(1e-13).hsvd(tensap.FullTensor(np.abs(ref.gen((3,) * d, case["flat"])) ** 2), T)
        off = [int(T.dim2ind[k]) for k in range(d) if not case["act"][k]]
        return x.inactivate_nodes(off) if off else x
    if case.get("root", 1) > 1:
        return tbt.make(case, p=4, s=shape, rootrank=case["root"])
    A = low_rank(d, case["perm"], shape)
    x = tensap.Truncator(1e-13).hsvd(tensap.FullTensor(A), T)
    off = [int(T.dim2ind[k]) for k in range(d) if not case["act"][k]]
    return x.inactivate_nodes(off) if off else x


class Draws:
    """answers of numpy.random.choice: the explorer's decision, then a rotation"""

    def __init__(self, choose, points):
        self.choose, self.points, self.n, self.calls = choose, points, 0, 0

    def choice(self, a, size=None, replace=True, p=None):
        assert size is None
        a = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        ok = [i for i in range(len(a)) if p is None or np.ravel(p)[i] > 0]
        self.calls += 1
        if self.calls > 400:
            raise RuntimeError("no end after 400 random draws")
        if self.n < self.points:
            self.n += 1
            return a[ok[self.choose(len(ok))]]
        self.n += 1
        return a[ok[self.n % len(ok)]]


def run(case, ctx):
    if case["what"] == "exchange":
        return run_exchange(case, ctx)
    x = build(case)
    d = len(x.tree.dim2ind)
    D = ref.dense(x)
    points, dev = POINTS[case["tier"]][d]
    ch = ref.Choices(max_points=points, max_dev=dev)
    name = "optimize_dimension_tree" if case["what"] == "tree" else "optimize_leaves_permutations"
    s0 = sum(np.size(np.asarray(c.data)) for c in x.tensors)
    seen = set()

    def one(choose):
        dr = Draws(choose, points)
        with ctx.op(name, case["tol"], case["iters"], pure=[x], sig=name):
            with rng.patched(choice=dr.choice):
                y = getattr(x, name)(case["tol"], case["iters"])
            key = ref.tree_key(y.tree), tuple(int(r) for r in y.ranks)
            new = key not in seen
            seen.add(key)
            ctx.state(str(case["t"]), case["num"], str(case["act"]), name, key)
            e = np.linalg.norm(ref.dense(y) - D) if np.shape(ref.dense(y)) == D.shape else np.inf
            ctx.check(e <= max(case["tol"], 1e-11) * np.linalg.norm(D) * (1 + 1e-6), name + ":value",
                      f"relative error {e / np.linalg.norm(D):.3g} for the tolerance {case['tol']}, shape {np.shape(ref.dense(y))}")
            s1 = sum(np.size(np.asarray(c.data)) for c in y.tensors)
            ctx.check(s1 <= s0, name + ":storage", f"storage {s1} from {s0}")
            if new:
                tbt.structure(ctx, y, name)
                ctx.same(sorted(tbt_act(y)), sorted(tbt_act(x)), name + ":active", "variables with an inactive leaf")
                if case["what"] == "leaves":
                    ctx.check(shape_of(y.tree) == shape_of(x.tree), name + ":shape", "the tree itself changed, not only its leaves")
        ctx.trace(case["iters"])

    for _ in ch.explore(one):
        pass


def tbt_act(x):
    return [k for k, n in enumerate(x.tree.dim2ind) if not x.is_active_node[int(n) - 1]]


def shape_of(T):
    return ref.shape_key(ref.nested(T))
