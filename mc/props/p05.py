"""Norms, inner products, Gramians, singular values, storage, admissibility."""
import itertools

import numpy as np
import tensap

from .. import ref, tbt
from ..trees import M

ID = "P05"
BOUNDS = {
    "quick": "all labelled trees with 2..4 leaves, all active-leaf patterns (second operand also with other active leaves and "
             "ranks), rank patterns over {1,2,3} incl. rank-deficient sums, root rank 1..2, symmetric / nonsymmetric / "
             "rectangular metrics; the same quantities after orth, change_root, negation and contraction to order 1; every "
             "rank tuple over {1..4} for admissibility on orders 2..3",
    "thorough": "as quick with all rank/shape patterns, 3 numberings, order 5, admissibility on order 4",
}


def cases(tier):
    q = tier == "quick"
    for c in tbt.active_cases((2, 3), ("bfs", "pre", "post")):
        yield dict(c, kind="ops", pats=[[1, 4, 1], [4, 4, 1], [2, 1, 2], [4, 0, 2]])
    for c in tbt.active_cases((4,), ("bfs",) if q else ("bfs", "post")):
        yield dict(c, kind="ops", pats=[[1, 0, 1], [4, 2, 2]] if q else
                   [[p, s, rr] for p in (1, 3, 4, 5) for s in (0, 1, 2) for rr in (1, 2)])
    if not q:
        for t in ref.all_trees(range(5)):
            for act in ([1] * 5, [1, 0, 1, 0, 1]):
                yield {"t": t, "num": "bfs", "act": act, "kind": "ops", "pats": [[1, 0, 1]]}
    for c in tbt.active_cases((2, 3) if q else (2, 3, 4), ("bfs",)):
        yield dict(c, kind="adm", top=3 if len(c["act"]) < 4 else 2)


def run(case, ctx):
    globals()["run_" + case["kind"]](case, ctx)


def sv_true(y, dims, rr):
    a = y if rr > 1 else y[..., None]
    d = a.ndim - 1
    rest = [k for k in range(d + 1) if k not in dims]
    m = np.transpose(a, list(dims) + rest).reshape(int(np.prod([a.shape[k] for k in dims])), -1)
    return np.linalg.svd(m, compute_uv=False)


def gram_out(a, b):
    """inner products over the modes: scalar, or matrix between the outputs"""
    d = a.ndim
    return np.tensordot(a, b, (range(d), range(d)))


def scalars(ctx, x, y, rr, tag):
    """norm, singular values, gramians, storage of x against dense y"""
    nrm = np.linalg.norm(y)
    m = M.of(x.tree)
    act = [bool(a) for a in x.is_active_node]
    with ctx.op("norm", tag, pure=[x]):
        ctx.close(x.norm(), nrm, "norm", tol=1e-7, scale=max(nrm, 1e-3))
    with ctx.op("storage", tag, pure=[x]):
        sizes = [np.size(t.data) for t in x.tensors]
        nz = [np.count_nonzero(t.data) for t in x.tensors]
        leaf = [not m.children[n] for n in m.nodes]
        ctx.same(int(x.storage()), sum(sizes), "storage")
        ctx.same(int(x.sparse_storage()), sum(nz), "sparse_storage")
        ctx.same(int(x.sparse_leaves_storage()), sum(b if l else a for a, b, l in zip(sizes, nz, leaf)), "sparse_leaves_storage")
    if x.order < 2:
        return
    full_rank = True
    with ctx.op("singular_values", tag, pure=[x]):
        sv = x.singular_values()
        ctx.same(len(sv), len(m.nodes), "singular_values", "length")
        rks = []
        for n in m.nodes:
            if not act[n - 1]:
                ctx.check(sv[n - 1] is None, "singular_values", "inactive node %d" % n)
                rks.append(0)
                continue
            if n == m.root:
                rks.append(None)
                continue
            s = np.ravel(np.asarray(sv[n - 1], dtype=float))
            t = sv_true(y, sorted(m.dims[n]), rr)
            k = max(len(s), len(t))
            true_rank = int(np.sum(t > 1e-9 * max(t[0], 1e-300)))
            full_rank = full_rank and true_rank == len(s)
            rks.append(true_rank)
            # square roots of rounding errors of the Gram matrix
            ctx.close(np.pad(np.nan_to_num(s), (0, k - len(s))), np.pad(t, (0, k - len(t))), "singular_values", tol=2e-7,
                      scale=max(t[0], 1e-3), msg="node %d:" % n)
        ctx.state("sv", tag, m.key(), act, rks)
    if full_rank:
        with ctx.op("rank", tag, pure=[x]):
            r = x.rank
            ctx.same([int(a) for a, b in zip(r, rks) if b is not None], [b for b in rks if b is not None], "rank")
    with ctx.op("gramians", tag, pure=[x]):
        g, z = x.gramians()
        ctx.close(ref.tbt_dense(z), ref.tbt_dense(x), "gramians/tensor")
        U, W = ref.node_frames(z)
        for n in m.nodes:
            if not act[n - 1] or n == m.root:
                continue
            ctx.close(U[n].T @ U[n], np.eye(U[n].shape[1]), "gramians/basis", tol=1e-7, msg="basis of node %d" % n)
            ctx.close(g[n - 1], W[n].T @ W[n], "gramians", tol=1e-8, msg="node %d" % n)
    for n in m.nodes:
        if act[n - 1] and n != m.root:
            with ctx.op("gramians", n, tag, pure=[x], sig="gramians-node"):
                g, z = x.gramians(n)
                W = ref.node_frames(z)[1]
                ctx.close(g, W[n].T @ W[n], "gramians-node", tol=1e-8)
    a_nodes = [n for n in m.nodes if act[n - 1] and n != m.root]
    if len(a_nodes) > 1:
        for pair in itertools.combinations(a_nodes, 2):
            with ctx.op("gramians", pair, tag, pure=[x], sig="gramians-nodes"):
                g, z = x.gramians(np.array(pair))
                W = ref.node_frames(z)[1]
                for i, n in enumerate(pair):
                    ctx.close(g[i], W[n].T @ W[n], "gramians-nodes", tol=1e-8)


def metrics(shape1, shape2, kind):
    out = []
    for k, (n1, n2) in enumerate(zip(shape1, shape2)):
        m = ref.gen((n1, n2), 4 + k)
        out.append(m + m.T if kind == "sym" and n1 == n2 else m)
    return out


def run_ops(case, ctx):
    d = len(case["act"])
    for p, s, rr in case["pats"]:
        x = tbt.make(case, p, s, rr, tag=0)
        y = ref.tbt_dense(x)
        with ctx.step("ranks#%s shape#%s root-rank %s" % (p, s, rr)):
            ctx.trace()
            scalars(ctx, x, y, rr, "")
            with ctx.op("orth-then"):
                scalars(ctx, x.orth(), y, rr, "orth")
            with ctx.op("neg-orth-then"):
                scalars(ctx, -(x.orth() * 2), -2 * y, rr, "-orth")
            with ctx.op("sum-then"):
                scalars(ctx, x + x, 2 * y, rr, "x+x")
            with ctx.op("zero-then", sig="zero-norm"):
                ctx.close((x * 0).norm(), 0.0, "zero-norm")
                ctx.close((x - x).norm(), 0.0, "zero-norm", tol=1e-7)
            m = M.of(x.tree)
            if rr == 1:
                for n in m.nodes:
                    if x.is_active_node[n - 1] and n != m.root:
                        with ctx.op("change_root-then", n, sig="reroot-norm"):
                            z = x.orth().change_root(n)
                            ctx.close(z.norm(), np.linalg.norm(y), "reroot-norm", tol=1e-7)
                            ctx.close(z.dot(z), gram_out(y, y), "reroot-dot", tol=1e-8)
            with ctx.op("orth_at_node-then"):
                for n in m.nodes:
                    if x.is_active_node[n - 1]:
                        ctx.close(x.orth_at_node(n).norm(), np.linalg.norm(y), "orth_at_node-norm", tol=1e-7)
            # inner products
            acts = [case["act"]] + [a for a in ([1] * d, [0] * d) if a != case["act"]]
            for act in acts:
                sig = "" if act == case["act"] else "-mixed"
                for p2, r2 in ((p, rr), (3, 2 if rr > 1 else 1), (2, 3 if rr > 1 else 1)):
                    b = tbt.make(case, p2, s, r2, tag=1, act=act)
                    bd = ref.tbt_dense(b)
                    w = np.tensordot(y, bd, (range(d), range(d)))
                    with ctx.op("dot", act, pure=[x, b], sig="dot" + sig):
                        ctx.close(x.dot(b), w, "dot" + sig, scale=max(1e-3, np.linalg.norm(y) * np.linalg.norm(bd)))
                    for kind in ("sym", "gen", "rect"):
                        if kind == "rect":
                            b2 = tbt.make(case, p2, [2 + k % 2 for k in range(d)], r2, tag=2, act=act)
                        else:
                            b2 = b
                        b2d = ref.tbt_dense(b2)
                        ms = metrics(y.shape[:d], b2d.shape[:d], kind)
                        mb = ref.mode_product(b2d, ms, range(d))
                        w = np.tensordot(y, mb, (range(d), range(d)))
                        with ctx.op("dot_with_rank_one_metric", kind, act, pure=[x, b2, ms], sig="dot_metric" + sig):
                            ctx.close(x.dot_with_rank_one_metric(b2, ms), w, "dot_metric" + sig,
                                      scale=max(1e-3, np.linalg.norm(y) * np.linalg.norm(mb)))
            # order-1 results
            if rr == 1:
                v = [ref.gen((n,), 3) for n in y.shape[1:]]
                with ctx.op("order-1", sig="order-1"):
                    z = x.tensor_vector_product(v, list(range(1, d)))
                    zd = ref.vec_product(y, v, range(1, d))
                    ctx.close(z.norm(), np.linalg.norm(zd), "order-1/norm", tol=1e-7)
                    ctx.close(z.dot(z), zd @ zd, "order-1/dot")
                    ctx.close(ref.dense(z.orth()).reshape(zd.shape), zd, "order-1/orth")


def run_adm(case, ctx):
    T, _ = ref.build_tree(tbt.tup(case["t"]), case["num"])
    d = len(case["act"])
    act = tbt.activity(T, case["act"])
    m = M.of(T)
    free = [n for n in m.nodes if act[n - 1] and n != m.root]
    shape = tbt.SHAPES[0][:d]
    x0 = ref.make_tbt(T, shape, [1 if a else 0 for a in act], act)
    for rk in itertools.product(range(1, case["top"] + 1), repeat=len(free)):
        r = [1 if a else 0 for a in act]
        for n, k in zip(free, rk):
            r[n - 1] = k
        x = ref.make_tbt(T, shape, r, act)
        y = ref.tbt_dense(x)
        exact = all(int(np.sum(sv_true(y, sorted(m.dims[n]), 1) > 1e-8)) == r[n - 1] for n in free)
        ctx.trace()
        with ctx.op("is_admissible_rank", r, pure=[x, x0, r], sig="is_admissible_rank"):
            ctx.same(bool(x.is_admissible_rank()), exact, "is_admissible_rank", "generic tensor of ranks %s shape %s" % (r, shape))
            ctx.same(bool(x0.is_admissible_rank(r)), exact, "is_admissible_rank", "ranks given")
            ok, _ = x0.is_admissible_rank(np.array(r), 2)
            ctx.same(bool(ok), exact, "is_admissible_rank", "nargout 2")
        ctx.state(m.key(), r)
    inact = [n for n in m.nodes if not act[n - 1]]
    if inact:
        r = [1] * len(act)
        with ctx.op("is_admissible_rank", "inactive", sig="is_admissible_rank"):
            ctx.same(bool(x0.is_admissible_rank(r)), False, "is_admissible_rank", "nonzero rank of an inactive node")
