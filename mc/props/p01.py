"""Dimension trees: explicit-state exploration of all edit sequences."""
import itertools
from collections import deque

import numpy as np
import tensap

from .. import ref
from ..trees import M, check_tree, ints

ID = "P01"
BOUNDS = {
    "quick": "every rooted tree without unary node on 2..4 labelled leaves (3 node numberings for 2..3 leaves), all edit "
             "sequences of length <=2 (<=3 for 2..3 leaves) over change_root, permute, ipermute, sub_dimension_tree, "
             "add_child with every argument; trivial/linear/balanced to order 8 and every labelling to order 4; every "
             "outcome of the random draws of random() to order 4, arity 2, 3 and [2,3]; equality of every pair of trees "
             "with <=4 leaves plus trees with unary nodes",
    "thorough": "as quick with 5 leaves (236 trees), length <=3 to 4 leaves, random() to order 5, all pairs to 5 leaves",
}


def cases(tier):
    q = tier == "quick"
    for d in range(2, 9):
        yield {"kind": "ctor", "d": d}
    for d in (2, 3, 4) if q else (2, 3, 4, 5):
        for t in ref.all_trees(range(d)):
            for num in (("bfs", "pre", "post") if d < 4 else ("bfs", "post")):
                depth = 3 if d < 4 else 2
                if not q and d == 4:
                    depth = 3
                yield {"kind": "edit", "t": t, "num": num, "depth": depth}
    for d in (2, 3, 4) if q else (2, 3, 4, 5):
        for ar in (2, 3, [2, 3]):
            yield {"kind": "random", "d": d, "arity": ar, "runs": 4000 if q else 60000}
    n = 26 if q else 236
    for i in range(n):
        yield {"kind": "eq", "d": 4 if q else 5, "i": i}
    for i in range(1 + 4):
        yield {"kind": "eq", "d": 3, "i": i}


def tup(t):
    return t if isinstance(t, int) else tuple(tup(x) for x in t)


def perms_for(d):
    if d <= 3:
        return list(itertools.permutations(range(d)))
    out = []
    for k in range(d - 1):
        p = list(range(d))
        p[k], p[k + 1] = p[k + 1], p[k]
        out.append(tuple(p))
    out.append(tuple((i + 1) % d for i in range(d)))
    out.append(tuple((3 * i + 1) % d if d % 3 else (i * 2 + 1) % d for i in range(d)))
    return [p for p in out if sorted(p) == list(range(d))]


def run(case, ctx):
    globals()["run_" + case["kind"]](case, ctx)


def run_ctor(case, ctx):
    d = case["d"]
    with ctx.op("trivial", d):
        T = tensap.DimensionTree.trivial(d)
        m = check_tree(ctx, T, "trivial")
        ctx.same(set(m.level.values()), {0, 1}, "trivial", "levels")
        ctx.state(m.key())
    variants = [d] + ([list(np.array(p) + 1) for p in itertools.permutations(range(d))] if d <= 4 else
                      [[(k + 2) % d + 1 for k in range(d)]])
    for v in variants:
        perm = list(range(d)) if np.isscalar(v) else [int(x) - 1 for x in v]
        with ctx.op("linear", v, pure=[v]):
            T = tensap.DimensionTree.linear(v)
            m = check_tree(ctx, T, "linear")
            exp = (perm[0], perm[1])
            for k in perm[2:]:
                exp = (exp, k)
            ctx.check(norm(ref.nested(T)) == norm(exp), "linear", "got %s expected %s" % (ref.nested(T), exp))
            ctx.state(m.key())
        with ctx.op("balanced", v, pure=[v]):
            T = tensap.DimensionTree.balanced(v)
            m = check_tree(ctx, T, "balanced")
            lv = [m.level[x] for x in m.leafdim]
            ctx.check(max(lv) - min(lv) <= 1 and all(len(c) in (0, 2) for c in m.children.values()),
                      "balanced", "leaf levels %s" % lv)
            base = M.of(tensap.DimensionTree.balanced(d)).permute(perm)
            ctx.check(base.key() == m.key(), "balanced", "labelling of the leaves")
            ctx.state(m.key())
    ctx.trace(1 + 2 * len(variants))


def norm(t):
    return t if isinstance(t, int) else tuple(sorted((norm(x) for x in t), key=repr))


def run_edit(case, ctx):
    T0, _ = ref.build_tree(tup(case["t"]), case["num"])
    m0 = check_tree(ctx, T0, "constructor")
    q = deque([(T0, m0, 0)])
    ctx.state(m0.key())
    while q:
        T, m, k = q.popleft()
        if k == case["depth"]:
            ctx.trace()
            continue

        def go(T2, m2):
            if ctx.state(m2.key()):
                q.append((T2, m2, k + 1))

        d = len(m.leafdim)
        if d > 5 or len(m.nodes) > 11:
            ctx.trace()
            continue
        with ctx.step(repr(m.key())):
            for nod in m.nodes:
                # re-rooting away from a unary root would leave a node without
                # dimension: outside the domain
                if nod != m.root and len(m.children[m.root]) == 1:
                    continue
                with ctx.op("change_root", nod, pure=[T]):
                    T2, mod = T.change_root(nod)
                    m2 = check_tree(ctx, T2, "change_root", m.change_root(nod))
                    if nod != m.root:
                        ctx.check(set([nod] + m.ascendants(nod)) <= set(ints(mod)) <= set(m.nodes),
                                  "change_root/modified-nodes", "modified nodes %s" % ints(mod))
                    go(T2, m2)
            for nod in m.nodes:
                with ctx.op("add_child", nod, pure=[T]):
                    T2 = T.add_child(nod)
                    m2 = check_tree(ctx, T2, "add_child", m.add_child(nod))
                    go(T2, m2)
                if m.children[nod]:
                    with ctx.op("sub_dimension_tree", nod, pure=[T]):
                        T2, nodes = T.sub_dimension_tree(nod)
                        nodes = ints(nodes)
                        m2 = check_tree(ctx, T2, "sub_dimension_tree")
                        s = "sub_dimension_tree"
                        ctx.same(sorted(nodes), sorted([nod] + m.descendants(nod)), s, "extracted nodes")
                        sup = ints(T.dims[nod - 1])
                        for j, old in enumerate(nodes):
                            ctx.same({sup[x] for x in m2.dims[j + 1]}, set(m.dims[old]), s, "dimensions of node %d" % old)
                            ctx.same({nodes[c - 1] for c in m2.children[j + 1]}, set(m.children[old]), s, "children")
                        if nod != m.root:
                            go(T2, m2)
            for p in perms_for(d):
                for form in (list, np.array):
                    sp = form(p)
                    with ctx.op("permute", p, pure=[T, sp]):
                        T2 = T.permute(sp)
                        m2 = check_tree(ctx, T2, "permute", m.permute(p))
                        T3 = T2.ipermute(sp)
                        check_tree(ctx, T3, "ipermute", m)
                        check_tree(ctx, T.ipermute(sp).permute(sp), "ipermute", m)
                        ctx.check(T3 == T, "eq", "permute then ipermute is not equal")
                        go(T2, m2)


def run_random(case, ctx):
    """random(): every outcome of the random draws."""
    d, ar = case["d"], case["arity"]
    ri, pe = np.random.randint, np.random.permutation
    lo, hi = (ar, ar) if np.isscalar(ar) else ar
    ch = ref.Choices(max_points=40, max_runs=case["runs"])

    def one(choose):
        def randint(low, high=None, size=None, dtype=int):
            a, b = (0, low) if high is None else (low, high)
            a, b = int(a), int(b)
            if b <= a:
                raise ValueError("low >= high")
            if size is None:
                return a + choose(b - a)
            return np.array([a + choose(b - a) for _ in range(int(np.prod(size)))]).reshape(size)

        def permutation(x):
            items = list(range(int(x))) if np.ndim(x) == 0 else list(x)
            out = []
            while items:
                out.append(items.pop(choose(len(items))))
            return np.array(out, dtype=int)
        np.random.randint, np.random.permutation = randint, permutation
        try:
            return tensap.DimensionTree.random(d, ar)
        finally:
            np.random.randint, np.random.permutation = ri, pe
    with ctx.op("random", d, ar):
        for T, log in ch.explore(one):
            with ctx.step("choices=%s" % log):
                ctx.transitions += 1
                m = check_tree(ctx, T, "random")
                ctx.same(len(m.leafdim), d, "random", "order")
                for n in m.nodes:
                    k = len(m.children[n])
                    if k and not (lo <= k <= hi or k == len(m.dims[n])):
                        ctx.fail("random/arity", "node with %d children, arity %s" % (k, ar))
                ctx.check(not any(len(c) == 1 for c in m.children.values()), "random/arity", "unary node")
                ctx.state(m.key())
        ctx.trace(ch.runs)


def with_unary(t):
    """t and variants with one unary node inserted above a sub-tree."""
    yield t
    if isinstance(t, int):
        return
    for i, s in enumerate(t):
        yield t[:i] + ((s,),) + t[i + 1:]


def run_eq(case, ctx):
    d = case["d"]
    mine = list(ref.all_trees(range(d)))[case["i"]] if case["i"] < len(list(ref.all_trees(range(d)))) else (0, 1)
    firsts = list(with_unary(mine)) if d <= 4 else [mine]
    others = [t for k in (2, 3, d) if k <= d for t in ref.all_trees(range(k))]
    if d <= 4:
        others = [u for t in others for u in with_unary(t)]
    built = [(t, ref.build_tree(t, "post")[0]) for t in dict.fromkeys(others)]
    models = [M.of(T) for _, T in built]
    for a in firsts:
        for num in ("bfs",):
            Ta, _ = ref.build_tree(a, num)
            ga = M.of(Ta).groups()
            for (b, Tb), mb in zip(built, models):
                want = ga == mb.groups()
                with ctx.op("eq", a, b, pure=[]):
                    ctx.state(a, b)
                    ctx.same(bool(Ta == Tb), want, "eq/" + ("equal" if want else "different"), "%s == %s" % (a, b))
                    ctx.same(bool(Tb == Ta), want, "eq/" + ("equal" if want else "different"), "%s == %s" % (b, a))
                    ctx.same(bool(Ta != Tb), not want, "ne", "%s != %s" % (a, b))
    ctx.trace(len(firsts) * len(built))
