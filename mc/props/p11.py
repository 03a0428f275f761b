"""Conversions between formats and constructors, against dense arrays."""
import itertools

import numpy as np
import tensap

from .. import ref, tbt, rng

ID = "P11"
BOUNDS = {
    "quick": "every chain of two conversions between full, sparse, canonical, diagonal and tree-based formats for all shapes over "
             "{1,2,3} of order 1..3 (order 4 over {1,2}), every tree to order 4, every set of inactive leaves, canonical ranks 1..3, "
             "diagonal sizes 1..3; constructors over all trees to order 4, every set of inactive leaves, rank patterns (scalar, "
             "list, root rank 1 and 2) and shapes; all outcomes of the random choices of ranks, shape and active nodes over the "
             "extreme values of each draw; all tensor trains of order 2..4 with every order of the list of cores",
    "thorough": "as quick with order-4 shapes over {1,2,3} and trees of order 5",
}


def cases(tier):
    q = tier == "quick"
    shapes = [s for d in (1, 2, 3) for s in itertools.product((1, 2, 3), repeat=d)]
    shapes += [s for s in itertools.product((1, 2), repeat=4)] if q else list(itertools.product((1, 2, 3), repeat=4))
    for i in range(0, len(shapes), 6):
        yield {"kind": "full", "s": [list(s) for s in shapes[i:i + 6]]}
    for d in (2, 3, 4) if q else (2, 3, 4, 5):
        for t in ref.unlabelled_shapes(d) if d > 3 else ref.all_trees(range(d)):
            for num in ("bfs", "post") if d < 4 else ("bfs",):
                yield {"kind": "tree", "t": t, "num": num}
                yield {"kind": "create", "t": t, "num": num}
    for d in (1, 2, 3, 4):
        yield {"kind": "diag", "d": d}
        yield {"kind": "static", "d": d}
        if d > 1:
            yield {"kind": "tt", "d": d}
    for t in ((0, 1), ((0, 1), 2)):
        yield {"kind": "random", "t": t}


def run(case, ctx):
    globals()["run_" + case["kind"]](case, ctx)


def tup(t):
    return t if isinstance(t, int) else tuple(tup(x) for x in t)


def value(ctx, x, want, sig, cls, tol=1e-10):
    ctx.check(isinstance(x, cls), sig, "result is %r" % type(x))
    ctx.same([int(v) for v in np.atleast_1d(x.shape)], list(np.shape(want)), sig, "shape")
    ctx.same((int(x.order), int(x.ndim)), (np.ndim(want),) * 2, sig, "order")
    ctx.close(ref.dense(x), want, sig, tol=tol)
    f = x.full()
    ctx.check(isinstance(f, tensap.FullTensor), sig, "full() is %r" % type(f))
    ctx.close(f.data, want, sig, tol=tol, msg="full():")
    if not isinstance(x, tensap.SparseTensor):
        ctx.close(x.numpy(), want, sig, tol=tol, msg="numpy():")
    elif np.ndim(want) <= 2:
        if np.ndim(want) == 2:
            ctx.close(x.numpy().toarray(), want, sig, tol=tol, msg="numpy():")
    ctx.state(sig, np.shape(want), cls.__name__)


def run_full(case, ctx):
    for s in case["s"]:
        s = tuple(s)
        for zero in (False, True):
            y = ref.gen(s).reshape(s)
            if zero:
                y = np.where(np.arange(y.size).reshape(s) % 3 == 1, y, 0.0)
            ctx.trace()
            with ctx.step("shape %s%s" % (s, " with zeros" if zero else "")):
                with ctx.op("FullTensor", pure=[y]):
                    x = tensap.FullTensor(y)
                    value(ctx, x, y, "FullTensor", tensap.FullTensor)
                    value(ctx, tensap.FullTensor(x), y, "FullTensor/copy", tensap.FullTensor)
                    v = y.ravel(order="F")
                    value(ctx, tensap.FullTensor(v, len(s), list(s)), y, "FullTensor/shape", tensap.FullTensor)
                    value(ctx, tensap.FullTensor(v, order=3), v.reshape(-1, 1, 1), "FullTensor/order", tensap.FullTensor)
                with ctx.op("sparse", pure=[x]):
                    z = x.sparse()
                    value(ctx, z, y, "sparse", tensap.SparseTensor)
                    ctx.same(int(z.count_non_zero()), int(np.count_nonzero(y)), "sparse/count")
                    value(ctx, z.full(), y, "sparse/full", tensap.FullTensor)
                    value(ctx, z.full().sparse(), y, "sparse/full/sparse", tensap.SparseTensor)
                with ctx.op("tree_based_tensor", pure=[x]):
                    z = x.tree_based_tensor()
                    value(ctx, z, y, "tree_based_tensor", tensap.TreeBasedTensor)
                    tbt.structure(ctx, z, "tree_based_tensor")
                    value(ctx, z.full().sparse(), y, "tree_based_tensor/full/sparse", tensap.SparseTensor)
                    value(ctx, tensap.TreeBasedTensor(z), y, "TreeBasedTensor/copy", tensap.TreeBasedTensor)


def run_tree(case, ctx):
    t = tup(case["t"])
    T, _ = ref.build_tree(t, case["num"])
    d = T.dim2ind.size
    for m in tbt.masks(d):
        act = tbt.activity(T, m)
        for s in ((2,) * d, (2, 3, 1, 2, 2)[:d], (3, 2, 2, 1, 2)[:d])[:3 if d < 4 else 2]:
            for r in (1, 2, 3):
                sp = [ref.gen((n, r), k) for k, n in enumerate(s)]
                c = ref.gen((r,), 9)
                y = ref.cp_dense(sp, c)
                x = tensap.CanonicalTensor([a.copy() for a in sp], c.copy())
                ctx.trace()
                with ctx.step("shape %s rank %d inactive %s" % (s, r, m)):
                    for a in (act, list(act)) + ((None,) if all(act) else ()):
                        with ctx.op("canonical.tree_based_tensor", pure=[x, T], sig="canonical.tree_based_tensor"):
                            z = x.tree_based_tensor(T, a)
                            value(ctx, z, y, "canonical.tree_based_tensor", tensap.TreeBasedTensor)
                            tbt.structure(ctx, z, "canonical.tree_based_tensor")
                            ctx.same([bool(b) for b in z.is_active_node], [bool(b) for b in act], "canonical/active nodes")
                            ctx.check(z.tree == T, "canonical/tree")
                            value(ctx, z.full().sparse(), y, "canonical/../sparse", tensap.SparseTensor)
        for r in (1, 2, 3):
            for v in (ref.gen((r,), 2), np.where(np.arange(r) == 0, 0.0, 1.5)):
                x = tensap.DiagonalTensor(v.copy(), d)
                y = dg(v, d)
                ctx.trace()
                for a in (act, list(act)):
                    with ctx.op("diagonal.tree_based_tensor", m, r, pure=[x, T], sig="diagonal.tree_based_tensor"):
                        z = x.tree_based_tensor(T, a)
                        value(ctx, z, y, "diagonal.tree_based_tensor", tensap.TreeBasedTensor)
                        tbt.structure(ctx, z, "diagonal.tree_based_tensor")
                        ctx.same([bool(b) for b in z.is_active_node], [bool(b) for b in act], "diagonal/active nodes")
        for rr in (1, 2):
            ranks = [2 if k % 2 else 3 for k in range(T.nb_nodes)]
            s = (3, 2, 4, 2, 3)[:d]
            with ctx.op("TreeBasedTensor(list of cores)", m, rr, sig="TreeBasedTensor"):
                ranks[T.root - 1] = rr
                x = ref.make_tbt(T, s, [r if a else 0 for r, a in zip(ranks, act)], act, 1)
                y = ref.dense(x)
                value(ctx, x, y, "TreeBasedTensor", tensap.TreeBasedTensor) if rr == 1 else \
                    ctx.close(x.full().data, y, "TreeBasedTensor")
                z = tensap.TreeBasedTensor([np.array(a.data) for a in x.tensors], T)
                ctx.close(ref.dense(z), y, "TreeBasedTensor/arrays")
                tbt.structure(ctx, z, "TreeBasedTensor/arrays")
                z = tensap.TreeBasedTensor(x)
                ctx.close(ref.dense(z), y, "TreeBasedTensor/copy")
                tbt.structure(ctx, z, "TreeBasedTensor/copy")


def dg(v, d):
    v = np.atleast_1d(v)
    y = np.zeros((v.size,) * d)
    for i, a in enumerate(v):
        y[(i,) * d] = a
    return y


def run_diag(case, ctx):
    d = case["d"]
    for r in (1, 2, 3):
        for b in range(2 ** r):
            v = ref.gen((r,), 3) * np.array([(b >> i) & 1 for i in range(r)])
            y = dg(v, d)
            ctx.trace()
            with ctx.op("DiagonalTensor", b, d, pure=[v], sig="DiagonalTensor"):
                x = tensap.DiagonalTensor(v, d)
                value(ctx, x, y, "DiagonalTensor", tensap.DiagonalTensor)
                value(ctx, tensap.DiagonalTensor(x), y, "DiagonalTensor/copy", tensap.DiagonalTensor)
                value(ctx, tensap.DiagonalTensor(list(v), d), y, "DiagonalTensor/list", tensap.DiagonalTensor)
                value(ctx, tensap.FullTensor.diag(v, d), y, "FullTensor.diag", tensap.FullTensor)
                value(ctx, tensap.FullTensor.diag(list(v), d), y, "FullTensor.diag", tensap.FullTensor)
            with ctx.op("diagonal.sparse", b, d, pure=[x], sig="diagonal.sparse"):
                z = x.sparse()
                value(ctx, z, y, "diagonal.sparse", tensap.SparseTensor)
                ctx.same(int(z.count_non_zero()), int(np.count_nonzero(y)), "diagonal.sparse/count")
            with ctx.op("CanonicalTensor(diagonal core)", b, d, pure=[x], sig="CanonicalTensor"):
                sp = [ref.gen((2 + k % 2, r), k) for k in range(d)]
                value(ctx, tensap.CanonicalTensor(sp, x), ref.cp_dense(sp, v), "CanonicalTensor", tensap.CanonicalTensor)
                value(ctx, tensap.CanonicalTensor(sp, list(v)), ref.cp_dense(sp, v), "CanonicalTensor", tensap.CanonicalTensor)
            if d > 1:
                with ctx.op("diagonal.tree_based_tensor()", b, d, pure=[x], sig="diagonal.tree_based_tensor()"):
                    z = x.tree_based_tensor()
                    value(ctx, z, y, "diagonal.tree_based_tensor()", tensap.TreeBasedTensor)
                    tbt.structure(ctx, z, "diagonal.tree_based_tensor()")
                    ctx.same([bool(a) for a in z.is_active_node], [not bool(a) for a in z.tree.is_leaf], "diagonal/default active")


class Stream:
    """Deterministic stand-in of the random generator: consecutive values."""

    def __init__(self):
        self.n = 0

    def __call__(self, shape):
        shape = tuple(int(v) for v in np.atleast_1d(shape))
        k = int(np.prod(shape))
        self.n += k
        return (np.arange(self.n - k, self.n) + 1.0).reshape(shape)


def run_static(case, ctx):
    d = case["d"]
    for s in itertools.product((1, 2, 3), repeat=d):
        ctx.trace()
        F, C = tensap.FullTensor, tensap.CanonicalTensor
        for a in (list(s), np.array(s)) + ((s[0],) if d == 1 else ()):
            with ctx.op("FullTensor.ones/zeros/rand/randn", s, sig="FullTensor.static"):
                value(ctx, F.ones(a), np.ones(s), "FullTensor.ones", F)
                value(ctx, F.zeros(a), np.zeros(s), "FullTensor.zeros", F)
                with rng.patched(uniform=lambda s: Stream()(s)):
                    value(ctx, F.rand(a), Stream()(s), "FullTensor.rand", F)
                with rng.patched(normal=lambda s: Stream()(s)):
                    value(ctx, F.randn(a), Stream()(s), "FullTensor.randn", F)
                value(ctx, F.create(Stream(), a), Stream()(s), "FullTensor.create", F)
        for r in (1, 2, 3):
            with ctx.op("CanonicalTensor.ones/zeros/rand/randn", s, r, sig="CanonicalTensor.static"):
                z = C.zeros(r, list(s))
                value(ctx, z, np.zeros(s), "CanonicalTensor.zeros", C)
                o = C.ones(r, list(s))
                value(ctx, o, r * np.ones(s), "CanonicalTensor.ones", C)
                st = Stream()
                sp = [st((n, r)) for n in s]
                w = ref.cp_dense(sp, np.ones(r))
                g = Stream()
                x = C.create(g, r, list(s))
                value(ctx, x, w, "CanonicalTensor.create", C)
                for name in ("rand", "randn"):
                    g = Stream()
                    with rng.patched(uniform=g, normal=g):
                        value(ctx, getattr(C, name)(r, list(s)), w, "CanonicalTensor." + name, C)
                for y in (z, o, x):
                    ctx.same(int(y.representation_rank()), r, "CanonicalTensor/rank")
    for r in (1, 2, 3):
        D = tensap.DiagonalTensor
        with ctx.op("DiagonalTensor.ones/zeros/rand/randn", r, d, sig="DiagonalTensor.static"):
            value(ctx, D.ones(r, d), dg(np.ones(r), d), "DiagonalTensor.ones", D)
            value(ctx, D.zeros(r, d), dg(np.zeros(r), d), "DiagonalTensor.zeros", D)
            value(ctx, D.create(Stream(), r, d), dg(Stream()(r), d), "DiagonalTensor.create", D)
            for name in ("rand", "randn"):
                with rng.patched(uniform=lambda s: Stream()(s), normal=lambda s: Stream()(s)):
                    value(ctx, getattr(D, name)(r, d), dg(Stream()(r), d), "DiagonalTensor." + name, D)


def run_create(case, ctx):
    T, _ = ref.build_tree(tup(case["t"]), case["num"])
    d = T.dim2ind.size
    n = T.nb_nodes
    for m in tbt.masks(d):
        act = tbt.activity(T, m)
        for s in ((2,) * d, (2, 3, 1, 2, 2)[:d], None):
            for rk in (1, 2, [2] * n, [1 + k % 3 for k in range(n)], [3 - k % 3 for k in range(n)]):
                for rr in (1, 2):
                    if np.ndim(rk):
                        ranks = list(rk)
                        ranks[T.root - 1] = rr
                    else:
                        ranks = rk
                        if rr != rk:
                            continue
                    one_create(ctx, T, act, s, ranks, rr)


def one_create(ctx, T, act, s, ranks, rr):
    n = T.nb_nodes
    rk = [ranks] * n if np.ndim(ranks) == 0 else list(ranks)
    B = tensap.TreeBasedTensor
    size = list(s) if s is not None else [int(rk[k - 1]) for k in T.dim2ind]
    ctx.trace()
    makers = [("create", lambda a: B.create(Stream(), T, ranks, a, act)), ("ones", lambda a: B.ones(T, ranks, a, act)),
              ("zeros", lambda a: B.zeros(T, ranks, a, act)), ("rand", lambda a: B.rand(T, ranks, a, act)),
              ("randn", lambda a: B.randn(T, ranks, a, act))]
    for name, f in makers:
        with ctx.op("TreeBasedTensor." + name, list(act), s, ranks, pure=[T], sig="TreeBasedTensor." + name):
            with rng.patched(uniform=lambda s: Stream()(s), normal=lambda s: -Stream()(s)):
                x = f(None if s is None else list(s))
            sig = "TreeBasedTensor." + name
            tbt.structure(ctx, x, sig)
            ctx.check(x.tree == T, sig, "tree")
            ctx.same([bool(b) for b in x.is_active_node], [bool(b) for b in act], sig, "active nodes")
            ctx.same([int(v) for v in x.shape], size, sig, "shape")
            want = [r if a else 0 for r, a in zip(rk, act)]
            got = [int(v) if a else 0 for v, a in zip(x.ranks, act)]
            ctx.same(got, want, sig, "ranks")
            ctx.close(x.full().data, ref.dense(x), sig, msg="full():")
            for k in range(n):
                if act[k]:
                    c = np.asarray(x.tensors[k].data)
                    w = {"ones": np.ones(c.shape), "zeros": np.zeros(c.shape)}.get(name)
                    if w is not None:
                        ctx.close(c, w, sig, msg="core of node %d" % (k + 1))
                    elif name != "create":
                        ctx.close(c, Stream()(c.shape) * (1 if name == "rand" else -1), sig, msg="core of node %d" % (k + 1))
            ctx.state(sig, list(act), s, rk)


def run_tt(case, ctx):
    d = case["d"]
    for s in itertools.product((1, 2), repeat=d) if d == 4 else itertools.product((1, 2, 3), repeat=d):
        for r in itertools.product((1, 2), repeat=d - 1):
            rk = (1,) + r + (1,)
            cores = [ref.gen((rk[k], s[k], rk[k + 1]), k) for k in range(d)]
            y = cores[0]
            for c in cores[1:]:
                y = np.tensordot(y, c, (y.ndim - 1, 0))
            y = y.reshape(s)
            cs = [tensap.FullTensor(cores[0][0])] + [tensap.FullTensor(c) for c in cores[1:-1]] + \
                [tensap.FullTensor(cores[-1][:, :, 0])]
            ctx.trace()
            with ctx.op("tensor_train", s, r, pure=cs, sig="tensor_train"):
                x = tensap.TreeBasedTensor.tensor_train(list(cs))
                value(ctx, x, y, "tensor_train", tensap.TreeBasedTensor)
                tbt.structure(ctx, x, "tensor_train")
                ctx.check(x.tree == tensap.DimensionTree.linear(d), "tensor_train/tree")
            for p in itertools.permutations(range(d)):
                with ctx.op("tensor_train", s, r, p, pure=cs, sig="tensor_train/dims"):
                    x = tensap.TreeBasedTensor.tensor_train([cs[k] for k in p], list(p))
                    value(ctx, x, y, "tensor_train/dims", tensap.TreeBasedTensor)


def run_random(case, ctx):
    """ranks / shape / active nodes drawn at random: every combination of the
    extreme values of each draw."""
    T, _ = ref.build_tree(tup(case["t"]), "bfs")
    n, d = T.nb_nodes, T.dim2ind.size
    for kw in ({"ranks": 2, "shape": [3] * d, "is_active_node": "random"}, {"ranks": "random", "shape": [2] * d},
               {"ranks": 2, "shape": "random"}, {"ranks": [1 if k == T.root - 1 else 3 for k in range(n)]}):
        random_create(ctx, T, n, d, kw)


def random_create(ctx, T, n, d, kw):
    C = ref.Choices(max_points=14)

    def body(choose):
        def randint(lo, hi=None, size=None):
            if hi is None:
                lo, hi = 0, lo
            vals = sorted({lo, (lo + hi - 1) // 2, hi - 1}) if hi - lo <= 3 else [lo, hi - 1]
            if size is None:
                return vals[choose(len(vals))]
            return np.array([vals[choose(len(vals))] for _ in range(int(size))])

        def permutation(k):
            left, out = list(range(k)), []
            while left:
                out.append(left.pop(choose(len(left))))
            return np.array(out)
        with rng.patched(randint=randint, permutation=permutation):
            return tensap.TreeBasedTensor.create(Stream(), T, **kw)
    with ctx.op("create(random)", pure=[T]):
        for x, log in C.explore(body):
            ctx.trace()
            if True:
                tbt.structure(ctx, x, "create(random)")
                ctx.check(x.tree == T, "create(random)/tree")
                ctx.close(x.full().data, ref.dense(x), "create(random)")
                if isinstance(kw.get("shape"), list):
                    ctx.same([int(v) for v in x.shape], kw["shape"], "create(random)/shape")
                if isinstance(kw.get("ranks"), int):
                    ctx.same({int(v) for v, a in zip(x.ranks, x.is_active_node) if a}, {2}, "create(random)/ranks")
                if kw.get("shape") is None:
                    ctx.same([int(v) for v in x.shape], [int(x.ranks[k - 1]) for k in T.dim2ind], "create(random)/shape=ranks")
                ctx.state([int(v) for v in x.ranks], [int(v) for v in x.shape], [bool(b) for b in x.is_active_node])
    ctx.check(not C.capped, "create(random)/bound", "enumeration of draws was cut")
