"""Evaluation and contraction of tree-based tensors against the dense expansion."""
import itertools

import numpy as np
import tensap

from .. import ref, tbt
from ..trees import M

ID = "P03"
BOUNDS = {
    "quick": "all labelled trees with 2..4 leaves (3 numberings to order 3), all active-leaf patterns, rank patterns over "
             "{1,2,3}, shapes with and without singleton modes, root rank 1..2; every ordered subset of modes; "
             "sub-tensors over 4 index lists per mode; all pairs of operations on orders 2..3",
    "thorough": "as quick with all rank/shape patterns on order 4, order 5 for one pattern, pairs on order 4",
}
ASSUMPTIONS = ["partial diagonals over modes that are not the modes of a tree node are documented as not implemented "
               "(NotImplementedError is accepted there)"]


def cases(tier):
    q = tier == "quick"
    for c in tbt.active_cases((2, 3), ("bfs", "pre", "post")):
        yield dict(c, kind="ops", pats=[[1, 0, 1], [4, 1, 2], [2, 3, 1], [3, 2, 2]])
    for c in tbt.active_cases((4,), ("bfs",) if q else ("bfs", "post")):
        yield dict(c, kind="ops", pats=[[1, 1, 1], [4, 2, 2]] if q else
                   [[p, s, rr] for p in (0, 1, 4, 5) for s in (0, 1, 2) for rr in (1, 2)])
    for c in tbt.active_cases((2, 3), ("post",)):
        yield dict(c, kind="chain", pats=([[1, 2, 1]] if sum(c["act"]) % 2 else [[4, 1, 2]]) if q else
                   [[1, 2, 1], [4, 1, 2], [3, 3, 2]])
    if not q:
        for c in tbt.active_cases((4,), ("pre",)):
            yield dict(c, kind="chain", pats=[[1, 2, 1]])
        for t in ref.all_trees(range(5)):
            for act in ([1] * 5, [0] * 5, [1, 0, 1, 0, 1], [0, 1, 1, 0, 0]):
                yield {"t": t, "num": "bfs", "act": act, "kind": "ops", "pats": [[1, 1, 1]]}


def node_dims(t):
    return set(M.of(t.tree).dims.values())


def expect(ctx, r, w, sig, order):
    """result r (tensor, array or scalar) against the dense value w; order = number of modes left."""
    if isinstance(r, tensap.TreeBasedTensor):
        return tbt.check(ctx, r, w, sig)
    g = ref.dense(r)
    if g.ndim == w.ndim + 1 and g.shape[-1] == 1:
        g = g[..., 0]
    ctx.state(sig, type(r).__name__, w.shape)
    return ctx.close(g, w, sig)


def diag_of(y, dims, front):
    """dense partial diagonal: y[k,...,k at dims] placed first or at min(dims)."""
    n = y.shape[dims[0]]
    rest = [k for k in range(y.ndim) if k not in dims]
    z = np.transpose(y, list(dims) + rest)
    z = np.stack([z[(k,) * len(dims)] for k in range(n)], 0)
    return z if front else np.moveaxis(z, 0, min(dims))


def at_indices(y, idx, dims):
    rest = [k for k in range(y.ndim) if k not in dims]
    z = np.transpose(y, list(dims) + rest)
    return np.stack([z[tuple(r)] for r in idx], 0)


def index_rows(shape, dims, k):
    """deterministic rows (with a repeated one) for the modes dims"""
    allrows = list(itertools.product(*[range(shape[d]) for d in dims]))
    if k == "all":
        return np.array(allrows)
    if k == "one":
        return np.array(allrows[-1:])
    rows = allrows[::-1][:4] + [allrows[0], allrows[0], allrows[len(allrows) // 2]]
    return np.array(rows)


def ops(x, y, full=True):
    """(signature, label, thunk -> result, candidates for the dense value)"""
    d = int(x.order)
    shp = y.shape[:d]
    rdim = y.ndim - d
    out = []

    def add(sig, label, f, *want, order=None, ni=False):
        out.append((sig, label, f, want, ni))

    add("full", "", lambda: x.full(), y)
    add("numpy", "", lambda: x.numpy(), y)
    mats = [ref.gen((1 + (k + 1) % 3, shp[k]), 3 + k) for k in range(d)]
    vecs = [ref.gen((shp[k],), 7 + k) for k in range(d)]
    sets = list(ref.ordered_subsets(d, 1)) if full else list(ref.subsets(d, 1))
    if d == 4 and full:
        sets = list(ref.subsets(d, 1)) + list(ref.ordered_subsets(d, 2, 2)) + [(3, 1, 2, 0), (2, 3, 1), (1, 3, 0)]
    for ds in sets:
        ms = [mats[k] for k in ds]
        w = ref.mode_product(y, ms, ds)
        add("tensor_matrix_product", ds, lambda ds=ds, ms=ms: x.tensor_matrix_product(list(ms), list(ds)), w)
        vs = [vecs[k] for k in ds]
        wv = ref.vec_product(y, vs, ds)
        add("tensor_vector_product", ds, lambda ds=ds, vs=vs: x.tensor_vector_product(list(vs), list(ds)), wv)
        if ds == tuple(sorted(ds)):
            wd = ref.mode_product(y, [np.diag(v) for v in vs], ds)
            add("tensor_diagonal_matrix_product", ds,
                lambda ds=ds, vs=vs: x.tensor_diagonal_matrix_product(list(vs), list(ds)), wd)
    add("tensor_matrix_product", "None", lambda: x.tensor_matrix_product(mats), ref.mode_product(y, mats, range(d)))
    add("tensor_matrix_product", "array,int", lambda: x.tensor_matrix_product(mats[-1], d - 1),
        ref.mode_product(y, [mats[-1]], [d - 1]))
    add("tensor_vector_product", "None", lambda: x.tensor_vector_product(vecs), ref.vec_product(y, vecs, range(d)))
    add("tensor_vector_product", "array,int", lambda: x.tensor_vector_product(vecs[0], 0), ref.vec_product(y, [vecs[0]], [0]))
    add("tensor_diagonal_matrix_product", "None", lambda: x.tensor_diagonal_matrix_product(vecs),
        ref.mode_product(y, [np.diag(v) for v in vecs], range(d)))
    for n in (3, 1):
        H = [ref.gen((n, shp[k]), 2 + k) for k in range(d)]
        z = ref.mode_product(y, H, range(d))
        add("tensor_matrix_product_eval_diag", n, lambda H=H: x.tensor_matrix_product_eval_diag(H),
            diag_of(z, list(range(d)), True))
    # sub-tensors
    opts = [[":", [0], [n - 1, 0], [0, 0, n - 1]] for n in shp]
    if d >= 4 or not full:
        opts = [[":", [n - 1, 0]] if k % 2 else [[0], [0, n - 1, 0]] for k, n in enumerate(shp)]
    for ch in itertools.product(*opts):
        w = y
        for k, c in enumerate(ch):
            if c != ":":
                w = np.take(w, c, axis=k)
        add("sub_tensor", ch, lambda ch=ch: x.sub_tensor(*ch), w)
    # entries
    for k in ("all", "one", "some"):
        idx = index_rows(shp, range(d), k)
        add("eval_at_indices", k, lambda idx=idx: x.eval_at_indices(idx), at_indices(y, idx, range(d)))
    idx = index_rows(shp, range(d), "one")[0]
    add("eval_at_indices", "row-vector", lambda idx=idx: x.eval_at_indices(list(idx)), at_indices(y, [idx], range(d)))
    if len(index_rows(shp, range(d), "some")) != d:
        it = index_rows(shp, range(d), "some")
        add("eval_at_indices", "transposed", lambda: x.eval_at_indices(it.T), at_indices(y, it, range(d)))
    nd = node_dims(x)
    for ds in (list(ref.ordered_subsets(d, 1)) if d < 4 else list(ref.subsets(d, 1)) + [(1, 0), (3, 2), (2, 0, 1)]):
        for k in ("some", "one"):
            idx = index_rows(shp, ds, k)
            w = at_indices(y, idx, ds)
            alt = [w, np.moveaxis(w, 0, min(ds))]
            if k == "one":
                alt.append(w[0])
            add("eval_at_indices-partial", (ds, k), lambda idx=idx, ds=ds: x.eval_at_indices(idx, list(ds)), *alt,
                ni=frozenset(ds) not in nd and k == "some")
    # diagonals
    if len(set(shp)) == 1:
        add("eval_diag", "", lambda: x.eval_diag(), diag_of(y, list(range(d)), True))
    for ds in ref.subsets(d, 1):
        if len({shp[k] for k in ds}) == 1:
            add("eval_diag-partial", ds, lambda ds=ds: x.eval_diag(list(ds)), diag_of(y, list(ds), True),
                diag_of(y, list(ds), False), ni=frozenset(ds) not in nd)
    # squeeze
    ones = [k for k in range(d) if shp[k] == 1]
    add("squeeze", "", lambda: x.squeeze(), np.squeeze(y, tuple(ones)))
    for m in ref.subsets(len(ones), 1):
        ds = [ones[i] for i in m]
        add("squeeze", ds, lambda ds=ds: x.squeeze(ds), np.squeeze(y, tuple(ds)))
    return out


def do(ctx, x, y, o, pre=""):
    sig, label, f, want, ni = o
    res = []
    with ctx.op(sig, label, pure=[x], sig=pre + sig):
        try:
            r = f()
        except NotImplementedError:
            if ni:
                return None
            raise
        # several layouts are documented ("up to a permutation"): the result must be one of them
        g = ref.dense(r) if not isinstance(r, tensap.TreeBasedTensor) else ref.tbt_dense(r)
        pick = want[0]
        for w in want[1:]:
            gg = g[..., 0] if g.ndim == w.ndim + 1 and g.shape[-1] == 1 else g
            if gg.shape == w.shape and np.allclose(gg, w, rtol=0, atol=1e-9 * max(1, np.max(np.abs(w), initial=0))):
                pick = w
        if expect(ctx, r, pick, pre + sig, None) and isinstance(r, tensap.TreeBasedTensor):
            res.append((r, np.reshape(pick, g.shape)))
    return res[0] if res else None


def run(case, ctx):
    for p, s, rr in case["pats"]:
        x = tbt.make(case, p, s, rr)
        y = ref.tbt_dense(x)
        with ctx.step("ranks#%s shape#%s root-rank %s" % (p, s, rr)):
            ctx.same(sorted(int(k) for k in x.active_dims), [k for k, v in enumerate(case["act"]) if v], "active_dims")
            ctx.same(sorted(int(k) for k in np.ravel(x.non_active_dims)), [k for k, v in enumerate(case["act"]) if not v],
                     "non_active_dims")
            for k, v in enumerate(case["act"]):
                ctx.same(bool(x.is_active_dim(k)), bool(v), "is_active_dim")
            for o in ops(x, y, full=case["kind"] == "ops"):
                r = do(ctx, x, y, o)
                ctx.trace()
                if r is not None and case["kind"] == "chain":
                    x2, y2 = r
                    key = (M.of(x2.tree).key(), [bool(b) for b in x2.is_active_node], [int(b) for b in x2.ranks], y2.shape)
                    if ctx.state("expand", key):
                        with ctx.step("%s%s" % (o[0], o[1])):
                            for o2 in ops(x2, y2, full=False):
                                do(ctx, x2, y2, o2, "chain:")
                                ctx.trace()
        ctx.close(ref.tbt_dense(x), y, "operand-corrupted")
