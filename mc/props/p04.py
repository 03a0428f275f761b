"""Representation changes of tree-based tensors never change the tensor."""
import itertools

import numpy as np
import tensap

from .. import ref, tbt
from ..trees import M

ID = "P04"
BOUNDS = {
    "quick": "all labelled trees with 2..4 leaves, all active-leaf patterns, rank patterns over {1,2,3} incl. rank-deficient "
             "and root rank 1..2: orth, orth_at_node and change_root at every active node, every set of leaves to "
             "activate/inactivate, every exchangeable pair of nodes, every leaf permutation (order <= 3; generators on "
             "order 4), removal of unary nodes inserted at every place; all sequences of length 2 on orders 2..3",
    "thorough": "as quick with more rank/shape patterns and numberings, sequences of length 2 on order 4 (two activity patterns) and 3 on order 2",
}


def cases(tier):
    q = tier == "quick"
    for c in tbt.active_cases((2,), ("bfs", "pre", "post")):
        yield dict(c, kind="seq", depth=2 if q else 3, pats=[[4, 4, 1], [1, 0, 2], [5, 1, 1]])
    for c in tbt.active_cases((3,), ("bfs",) if q else ("bfs", "post")):
        yield dict(c, kind="seq", depth=2, pats=([[4, 4, 1]] if sum(c["act"]) % 2 else [[1, 0, 2]]) if q else
                   [[4, 4, 1], [1, 0, 2], [5, 1, 1]])
    for c in tbt.active_cases((3,), ("post", "pre")):
        yield dict(c, kind="seq", depth=1, pats=[[3, 1, 1], [5, 0, 2], [0, 0, 1]])
    for c in tbt.active_cases((4,), ("bfs",)):
        yield dict(c, kind="seq", depth=1, pats=([[1, 0, 1]] if sum(c["act"]) % 2 else [[4, 2, 2]]) if q else
                   [[1, 0, 1], [4, 2, 2]])
        if not q and c["act"] in ([1, 1, 1, 1], [0, 1, 1, 0]):
            yield dict(c, kind="seq", depth=2, pats=[[1, 0, 1]])
    if not q:
        for c in tbt.active_cases((4,), ("post",)):
            yield dict(c, kind="seq", depth=1, pats=[[5, 4, 1], [4, 1, 2], [3, 0, 1]])
        for t in ref.all_trees(range(5)):
            yield {"t": t, "num": "bfs", "kind": "seq", "depth": 1, "act": [1, 0, 1, 1, 0], "pats": [[1, 2, 1]]}
    for d in (2, 3) if q else (2, 3, 4):
        for t in ref.all_trees(range(d)):
            for u in unary_variants(t, 2):
                yield {"t": u, "num": "bfs", "kind": "unary"}
                if d < 4:
                    yield {"t": u, "num": "post", "kind": "unary"}


def unary_variants(t, k):
    """all trees obtained by inserting 1..k unary nodes"""
    out, cur = [], {t}
    for _ in range(k):
        new = set()
        for x in cur:
            new |= set(insertions(x))
        out += sorted(new, key=repr)
        cur = new
    return sorted(set(out), key=lambda x: (len(repr(x)), repr(x)))


def insertions(t):
    yield (t,)
    if not isinstance(t, int):
        for i, s in enumerate(t):
            for v in insertions(s):
                yield t[:i] + (v,) + t[i + 1:]


def run(case, ctx):
    globals()["run_" + case["kind"]](case, ctx)


def gauge(ctx, r, nod, sig, full_rank=True):
    """bases of all active nodes but nod and the root are orthonormal; for a
    non-root node the complementary functions are orthonormal (when a numerically
    zero direction has been dropped at the node, the bases of its ascendants
    keep unused directions, about which nothing is stated)"""
    U, W = ref.node_frames(r)
    m = M.of(r.tree)
    for n, u in U.items():
        if n in (nod, m.root) or (not full_rank and n in m.ascendants(nod)):
            continue
        ctx.close(u.T @ u, np.eye(u.shape[1]), sig + "/gauge", tol=1e-7, msg="basis of node %d" % n)
    if nod != m.root:
        w = W[nod]
        ctx.close(w.T @ w, np.eye(w.shape[1]), sig + "/gauge", tol=1e-7, msg="complement of node %d" % nod)


def check_flags(ctx, r, sig):
    """a tensor advertised as orthogonal at a node has all its norm in that core"""
    if r.is_orth:
        y = ref.tbt_dense(r)
        c = np.asarray(r.tensors[int(r.orth_node) - 1].data, dtype=float)
        ctx.close(np.linalg.norm(c), np.linalg.norm(y), sig + "/is_orth-flag", tol=1e-7, scale=max(1, np.linalg.norm(y)))


def ops(x, m, act):
    d = len(m.leafdim)
    rr = int(x.ranks[m.root - 1])
    leafnodes = {m.leafdim[n]: n for n in m.leafdim}
    active = [n for n in m.nodes if act[n - 1]]
    out = [("orth", "", lambda: x.orth(), {"m": m, "act": act, "gauge": m.root})]
    for n in active:
        out.append(("orth_at_node", n, lambda n=n: x.orth_at_node(n), {"m": m, "act": act, "gauge": n}))
    for n in active:
        if n == m.root:
            e = {"m": m, "act": act}
        else:
            base, a2 = m, list(act)
            if rr > 1:
                base = m.add_child(m.root)
                a2.append(False)
            e2 = base.change_root(n)
            if n in m.leafdim:
                a2.append(False)
            e = {"m": e2, "act": a2}
        out.append(("change_root", n, lambda n=n: x.change_root(n), e))
    for s in ref.subsets(d, 1):
        nodes = [leafnodes[k] for k in s]
        a1, a2 = list(act), list(act)
        for n in nodes:
            a1[n - 1], a2[n - 1] = True, False
        out.append(("activate_nodes", nodes, lambda nodes=nodes: x.activate_nodes(nodes), {"m": m, "act": a1}))
        out.append(("inactivate_nodes", nodes, lambda nodes=nodes: x.inactivate_nodes(nodes), {"m": m, "act": a2}))
    out.append(("activate_nodes", "all", lambda: x.activate_nodes(x.tree.nodes_indices), {"m": m, "act": [True] * len(act)}))
    for a, b in itertools.permutations([n for n in m.nodes if n != m.root], 2):
        if b in m.ascendants(a) or b in m.descendants(a):
            continue
        e = m.swap(a, b) if m.parent[a] != m.parent[b] else m
        out.append(("permute_nodes", (a, b), lambda a=a, b=b: x.permute_nodes([a, b]), {"m": e, "act": act}))
    perms = list(itertools.permutations(range(d))) if d <= 3 else \
        [tuple(range(d))[:k] + (k + 1, k) + tuple(range(d))[k + 2:] for k in range(d - 1)] + \
        [tuple((k + 1) % d for k in range(d)), (3, 0, 2, 1) + tuple(range(4, d)), (1, 0, 3, 2) + tuple(range(4, d))]
    for p in perms:
        # the leaf of mode p[k] takes the place of the leaf of mode k
        out.append(("permute_leaves", p, lambda p=p: x.permute_leaves(np.array(p)), {"m": moved(m, p), "act": act}))
    if not any(len(c) == 1 for c in m.children.values()):
        out.append(("remove_unique_children", "", lambda: x.remove_unique_children(), {"m": m, "act": act}))
    return out


def moved(m, p):
    leafnodes = {m.leafdim[n]: n for n in m.leafdim}
    pos = {leafnodes[p[k]]: leafnodes[k] for k in range(len(p))}    # new occupant of a place
    inv = {v: k for k, v in pos.items()}
    ch = {n: sorted(inv.get(c, c) for c in cs) for n, cs in m.children.items()}
    return M(ch, dict(m.leafdim))


def apply(ctx, x, y, o, m):
    sig, label, f, e = o
    with ctx.op(sig, label, pure=[x], sig=sig):
        r = f()
        mm = tbt.structure(ctx, r, sig)
        if mm is None:
            return None
        if sig == "permute_leaves":
            ok = ctx.check(mm.key() == e["m"].key(), sig + "/wrong-tree",
                           "tree %s expected %s (before: %s)" % (mm.key(), e["m"].key(), m.key()))
        else:
            ok = ctx.check(mm.key() == e["m"].key(), sig + "/wrong-tree", "tree %s expected %s" % (mm.key(), e["m"].key()))
        ctx.same([bool(a) for a in r.is_active_node], [bool(a) for a in e["act"]], sig + "/active-nodes")
        g = ref.tbt_dense(r)
        w = y
        if g.ndim == w.ndim + 1 and g.shape[-1] == 1:
            g = g[..., 0]
        ctx.state(sig, mm.key(), [bool(a) for a in r.is_active_node], [int(a) for a in r.ranks], y.shape)
        ok = ctx.close(g, w, sig, tol=1e-8, msg="dense value:") and ok
        if "gauge" in e:
            full = all(int(a) == int(b) for a, b in zip(r.ranks, x.orth().ranks))
            gauge(ctx, r, e["gauge"], sig, full)
        check_flags(ctx, r, sig)
        return (r, w) if ok else None
    return None


def run_seq(case, ctx):
    d = len(case["act"])
    for p, s, rr in case["pats"]:
        x0 = tbt.make(case, p, s, rr)
        y0 = ref.tbt_dense(x0)
        frontier = [(x0, y0, [])]
        for k in range(case["depth"]):
            new, n = [], 0
            for x, y, h in frontier:
                m = M.of(x.tree)
                act = [bool(a) for a in x.is_active_node]
                seen_expand = k > 0 and not ctx.state("expand", k, h[-1][0], m.key(), act, [int(v) for v in x.ranks], bool(x.is_orth))
                if seen_expand and k > 0 and h[-1][0] not in ("orth_at_node", "change_root"):
                    continue
                todo = ops(x, m, act)
                if k > 0:
                    # pairs: all operations after a change of root / gauge / activity,
                    # one representative leaf permutation afterwards
                    todo = [o for o in todo if o[0] != "permute_leaves" or o[1] == tuple((i + 1) % d for i in range(d))]
                with ctx.step("ranks#%s shape#%s root-rank %s %s" % (p, s, rr, h)):
                    for o in todo:
                        r = apply(ctx, x, y, o, m)
                        ctx.trace()
                        if r is not None:
                            new.append((r[0], r[1], h + [(o[0], o[1])]))
            frontier = new
        # a rank-deficient representation: the sum of a tensor with itself
        if case["depth"] == 1 or d == 2:
            x = x0 + x0
            y = 2 * y0
            m = M.of(x.tree)
            with ctx.step("rank-deficient ranks#%s shape#%s root-rank %s" % (p, s, rr)):
                for o in ops(x, m, [bool(a) for a in x.is_active_node]):
                    apply(ctx, x, y, o, m)
                    ctx.trace()
        ctx.close(ref.tbt_dense(x0), y0, "operand-corrupted")


def run_unary(case, ctx):
    T, _ = ref.build_tree(tbt.tup(case["t"]), case["num"])
    m = M.of(T)
    d = len(m.leafdim)
    for mask in tbt.masks(d):
        # an inactive leaf must have a parent node of its own or siblings; every mask is a valid tensor
        for p, rr in ((1, 1), (5, 2)):
            act = tbt.activity(T, mask)
            r = [a if b else 0 for a, b in zip(tbt.rank_pattern(T.nb_nodes, int(T.root), p, rr), act)]
            x = ref.make_tbt(T, tbt.SHAPES[0][:d], r, act)
            y = ref.tbt_dense(x)
            ctx.trace()
            with ctx.op("remove_unique_children", mask, p, pure=[x], sig="remove_unique_children"):
                z = x.remove_unique_children()
                if tbt.check(ctx, z, y, "remove_unique_children"):
                    mz = M.of(z.tree)
                    ctx.check(not any(len(c) == 1 for c in mz.children.values()), "remove_unique_children/left", mz.key())
                    ctx.check(mz.nested() == m.nested(drop_unary=True), "remove_unique_children/wrong-tree",
                              "%s from %s" % (mz.nested(), m.nested()))
            for sig, f in (("orth", lambda: x.orth()), ("full", lambda: x.full()),
                           ("inactivate_nodes", lambda: x.inactivate_nodes(x.tree.dim2ind))):
                with ctx.op(sig + "-unary", mask, p, pure=[x], sig=sig + "-unary"):
                    z = f()
                    ctx.close(np.reshape(ref.dense(z), y.shape), y, sig + "-unary")
