"""Canonical and diagonal tensors against dense arrays."""
import itertools

import numpy as np
import tensap

from .. import ref

ID = "P09"
BOUNDS = {
    "quick": "all shapes over {1,2,3} of order 1..3 and over {1,2} plus two mixed shapes of order 4, ranks 1..4 (also larger than the "
             "sizes), every subset / ordered list of dimensions, every pair of ranks for binary operations, symmetric and "
             "nonsymmetric metrics; diagonal tensors of rank 1..3 and order 1..4, every multi-index for evaluation, every "
             "permutation, every contraction pair; all histories of two operations from {add, sub, neg, mode product, vector "
             "product, squeeze, orth}",
    "thorough": "as quick with order-4 shapes over {1,2,3}, ranks up to 5 and histories of three operations",
}


def cases(tier):
    q = tier == "quick"
    shapes = [s for d in (1, 2, 3) for s in itertools.product((1, 2, 3), repeat=d)]
    shapes += list(itertools.product((1, 2), repeat=4)) + [(2, 3, 1, 2), (3, 2, 2, 3)] if q else \
        list(itertools.product((1, 2, 3), repeat=4))
    for s in shapes:
        for r in (1, 2, 3, 4) if q else (1, 2, 3, 4, 5):
            yield {"kind": "cp", "s": list(s), "r": r}
    for r in (1, 2, 3):
        for d in (1, 2, 3, 4):
            yield {"kind": "diag", "r": r, "d": d}
    for s in ((2, 3), (3, 2, 2), (2, 1, 3), (2, 2, 2, 2)):
        for r in (1, 2, 3):
            yield {"kind": "hist", "s": list(s), "r": r, "depth": 2 if q else 3}


def run(case, ctx):
    globals()["run_" + case["kind"]](case, ctx)


def cp(shape, r, tag=0):
    sp = [ref.gen((n, r), tag + k) for k, n in enumerate(shape)]
    c = ref.gen((r,), tag + 9)
    return tensap.CanonicalTensor([a.copy() for a in sp], c.copy()), ref.cp_dense(sp, c)


def same(ctx, x, want, sig, tol=1e-9):
    """x: canonical tensor, full tensor, array or scalar with dense value want"""
    want = np.asarray(want, dtype=float)
    if want.ndim and isinstance(x, tensap.CanonicalTensor):
        ctx.same([int(v) for v in x.shape], list(want.shape), sig, "shape")
        ctx.same((int(x.order), int(x.ndim)), (want.ndim,) * 2, sig, "order")
        ctx.same([int(np.shape(a)[0]) for a in x.space], list(want.shape), sig, "space")
        ctx.state(sig, list(want.shape), [int(np.shape(a)[1]) for a in x.space])
    if isinstance(x, (tensap.CanonicalTensor, tensap.DiagonalTensor)):
        ctx.same([int(v) for v in x.shape], list(want.shape), sig, "shape")
        ctx.close(x.numpy(), want, sig, tol=tol, msg="numpy():")
        ctx.close(ref.dense(x), want, sig, tol=tol)
        f = x.full()
        ctx.check(isinstance(f, tensap.FullTensor), sig, "full() is %r" % type(f))
        ctx.close(f.data, want, sig, tol=tol, msg="full():")
        return
    if isinstance(x, tensap.FullTensor):
        x = x.data
    ctx.close(x, want, sig, tol=tol)


def run_cp(case, ctx):
    s, r = tuple(case["s"]), case["r"]
    d = len(s)
    x, y = cp(s, r)
    P = [x]
    ctx.trace()
    with ctx.op("expand", pure=P):
        same(ctx, x, y, "expand")
        ctx.same(int(x.representation_rank()), r, "representation_rank")
        ctx.same(int(x.storage()), r * (1 + sum(s)), "storage")
        z = tensap.CanonicalTensor([np.where(np.arange(n)[:, None] == 0, 0.0, a) for n, a in zip(s, x.space)], x.core)
        ctx.same(int(z.sparse_storage()), r + sum(r * (n - 1) for n in s), "sparse_storage")
    with ctx.op("neg", pure=P):
        same(ctx, -x, -y, "neg")
    with ctx.op("norm", pure=P):
        ctx.close(x.norm(), np.linalg.norm(y), "norm", tol=1e-7)
    with ctx.op("orth", pure=P):
        z = x.orth()
        same(ctx, z, y, "orth")
        for a in z.space:
            ctx.close(a.T @ a, np.eye(a.shape[1]), "orth", msg="orthonormal factors")
        ctx.close(z.norm(), np.linalg.norm(y), "orth/norm", tol=1e-7)
        ctx.close(z.dot(z), np.sum(y * y), "orth/dot")
    one = [k for k in range(d) if s[k] == 1]
    for dims in [None] + [c for c in ref.ordered_subsets(d, 1) if all(s[k] == 1 for k in c)]:
        with ctx.op("squeeze", dims, pure=P, sig="squeeze"):
            ax = tuple(one) if dims is None else tuple(dims)
            same(ctx, x.squeeze(None if dims is None else list(dims)), np.squeeze(y, ax), "squeeze")
    for dims in [None] + list(ref.ordered_subsets(d, 1)):
        dd = list(range(d)) if dims is None else list(dims)
        da = None if dims is None else list(dims)
        mats = [ref.gen((2 + k % 2, s[k]), k + 1) for k in dd]
        vecs = [ref.gen((s[k],), k + 5) for k in dd]
        with ctx.op("tensor_matrix_product", dims, pure=P + mats, sig="tensor_matrix_product"):
            same(ctx, x.tensor_matrix_product(list(mats), da), ref.mode_product(y, mats, dd), "tensor_matrix_product")
            if len(dd) == 1 and dims is not None:
                same(ctx, x.tensor_matrix_product(mats[0], dims[0]), ref.mode_product(y, mats, dd), "tensor_matrix_product")
        with ctx.op("tensor_vector_product", dims, pure=P + vecs, sig="tensor_vector_product"):
            same(ctx, x.tensor_vector_product(list(vecs), da), ref.vec_product(y, vecs, dd), "tensor_vector_product")
            if len(dd) == 1 and dims is not None:
                same(ctx, x.tensor_vector_product(vecs[0], dims[0]), ref.vec_product(y, vecs, dd), "tensor_vector_product")
        with ctx.op("reduce_sum", dims, pure=P, sig="reduce_sum"):
            same(ctx, x.reduce_sum(da), np.sum(y, tuple(dd)), "reduce_sum")
        # diagonal evaluation after matrix products: the common index takes the place of the first dimension
        rest = [k for k in range(d) if k not in dd]
        mats = [ref.gen((3, s[k]), k + 1) for k in dd]
        L = "abcdefg"
        w = np.einsum(",".join("n" + L[k] for k in dd) + "," + L[:d] + "->n" + "".join(L[k] for k in rest), *mats, y)
        w = np.moveaxis(w, 0, len([k for k in rest if k < min(dd)]))
        with ctx.op("tensor_matrix_product_eval_diag", dims, pure=P + mats, sig="tensor_matrix_product_eval_diag"):
            same(ctx, x.tensor_matrix_product_eval_diag(list(mats), da), w, "tensor_matrix_product_eval_diag")
        if len({s[k] for k in dd}) == 1:
            w = np.moveaxis(np.array([y[tuple(i if k in dd else slice(None) for k in range(d))] for i in range(s[dd[0]])]), 0,
                            len([k for k in rest if k < min(dd)]))
            with ctx.op("eval_diag", dims, pure=P, sig="eval_diag"):
                z = x.eval_diag(da)
                same(ctx, z, w, "eval_diag")
    for r2 in (1, 2, 3):
        x2, y2 = cp(s, r2, 3)
        with ctx.op("add", r2, pure=[x, x2], sig="add"):
            same(ctx, x + x2, y + y2, "add")
            ctx.same(int((x + x2).representation_rank()), r + r2, "add", "rank")
            same(ctx, x - x2, y - y2, "sub")
        with ctx.op("dot", r2, pure=[x, x2], sig="dot"):
            ctx.close(x.dot(x2), np.sum(y * y2), "dot")
            ctx.close(x2.dot(x), np.sum(y * y2), "dot")
            ctx.close(x.orth().dot(x2.orth()), np.sum(y * y2), "orth-dot")
    if d > 1:
        for T, num in ((t, n) for t in ref.unlabelled_shapes(d) for n in ("bfs", "post")):
            from .. import tbt
            tree, _ = ref.build_tree(T, num)
            with ctx.op("tree_based_tensor", T, num, pure=P + [tree], sig="tree_based_tensor"):
                tbt.check(ctx, x.tree_based_tensor(tree), y, "tree_based_tensor")
                act = np.array(tbt.activity(tree, [k % 2 for k in range(d)]))
                z = x.tree_based_tensor(tree, act)
                tbt.check(ctx, z, y, "tree_based_tensor")
                ctx.same([bool(v) for v in z.is_active_node], [bool(v) for v in act], "tree_based_tensor", "active nodes")


def dense_diag(v, d):
    w = np.zeros((len(v),) * d)
    for i, a in enumerate(v):
        w[(i,) * d] = a
    return w


def run_diag(case, ctx):
    r, d = case["r"], case["d"]
    v = ref.gen((r,), 2)
    x = tensap.DiagonalTensor(v.copy(), d)
    y = dense_diag(v, d)
    P = [x]
    ctx.trace()
    with ctx.op("diag-expand", pure=P):
        same(ctx, x, y, "diag-expand")
        same(ctx, tensap.DiagonalTensor(x), y, "diag-copy")
        ctx.close(ref.dense(x.sparse()), y, "diag-sparse")
        z = tensap.DiagonalTensor(np.where(np.arange(r) == 0, 0.0, v), d)
        ctx.close(ref.dense(z.sparse()), dense_diag(z.data, d), "diag-sparse")
        ctx.same((int(x.order), int(x.ndim), int(x.storage()), int(z.sparse_storage())), (d, d, r, r - 1), "diag-attributes")
        ctx.close(x.norm(), np.linalg.norm(y), "diag-norm")
    with ctx.op("diag-arithmetic", pure=P):
        w = ref.gen((r,), 4)
        b = tensap.DiagonalTensor(w, d)
        for g, e in ((x + b, v + w), (x - b, v - w), (-x, -v), (x * b, v * w)):
            same(ctx, g, dense_diag(e, d), "diag-arithmetic")
        ctx.close(x.dot(b), np.sum(y * dense_diag(w, d)), "diag-dot")
    with ctx.op("diag-tensor_vector_product", pure=P):
        vecs = [ref.gen((r,), k + 5) for k in range(d)]
        for k in range(1, d + 1):
            g = x.tensor_vector_product(vecs[:k])
            same(ctx, g, ref.vec_product(y, vecs[:k], range(k)), "diag-tensor_vector_product")
            same(ctx, x.tensor_vector_product(np.stack(vecs[:k], 1)), ref.vec_product(y, vecs[:k], range(k)), "diag-tensor_vector_product")
        g = x.tensor_diagonal_matrix_product(list(vecs))
        same(ctx, g, ref.mode_product(y, [np.diag(a) for a in vecs], range(d)), "diag-tensor_diagonal_matrix_product")
    for dims in [None] + list(ref.ordered_subsets(d, 1)):
        dd = list(range(d)) if dims is None else list(dims)
        mats = [ref.gen((2 + k % 2, r), k + 1) for k in dd]
        da = None if dims is None else list(dims)
        with ctx.op("diag-tensor_matrix_product", dims, pure=P + mats, sig="diag-tensor_matrix_product"):
            same(ctx, x.tensor_matrix_product(list(mats), da), ref.mode_product(y, mats, dd), "diag-tensor_matrix_product")
        w = np.moveaxis(np.array([y[tuple(i if k in dd else slice(None) for k in range(d))] for i in range(r)]), 0,
                        len([k for k in range(d) if k not in dd and k < min(dd)]))
        with ctx.op("diag-eval_diag", dims, pure=P, sig="diag-eval_diag"):
            same(ctx, x.eval_diag(da), w, "diag-eval_diag")
        mats = [ref.gen((3, r), k + 1) for k in dd]
        rest = [k for k in range(d) if k not in dd]
        L = "abcdefg"
        w = np.einsum(",".join("n" + L[k] for k in dd) + "," + L[:d] + "->n" + "".join(L[k] for k in rest), *mats, y)
        w = np.moveaxis(w, 0, len([k for k in rest if k < min(dd)]))
        with ctx.op("diag-tensor_matrix_product_eval_diag", dims, pure=P + mats, sig="diag-tensor_matrix_product_eval_diag"):
            same(ctx, x.tensor_matrix_product_eval_diag(list(mats), da), w, "diag-tensor_matrix_product_eval_diag")
    with ctx.op("diag-eval_at_indices", pure=P):
        idx = np.array(list(np.ndindex(y.shape)))
        for i in (idx, idx[::-1], idx[:1], idx[[-1, 0]]):
            ctx.close(x.eval_at_indices(i), [y[tuple(k)] for k in i], "diag-eval_at_indices")
    with ctx.op("diag-transpose", pure=P):
        for perm in itertools.permutations(range(d)):
            same(ctx, x.transpose(list(perm)), y, "diag-transpose")
            same(ctx, x.itranspose(list(perm)), y, "diag-transpose")
    with ctx.op("diag-sub_tensor", pure=P):
        for c in itertools.product(*[[":", [0], [r - 1, 0]]] * d):
            w = y
            for k, a in enumerate(c):
                if not isinstance(a, str):
                    w = np.take(w, a, axis=k)
            same(ctx, x.sub_tensor(*c), w, "diag-sub_tensor")
    with ctx.op("diag-orth", pure=P):
        z = x.orth()
        same(ctx, z[0] if isinstance(z, tuple) else z, y, "diag-orth")
    for r2 in (1, 2, 3):
        w = ref.gen((r2,), 7)
        b = tensap.DiagonalTensor(w.copy(), d)
        bd = dense_diag(w, d)
        with ctx.op("diag-cat", r2, pure=[x, b], sig="diag-cat"):
            same(ctx, x.cat(b), dense_diag(np.concatenate((v, w)), d), "diag-cat")
        with ctx.op("diag-kron", r2, pure=[x, b], sig="diag-kron"):
            same(ctx, x.kron(b), np.kron(y, bd), "diag-kron")
        for kind in ("gen", "sym"):
            ms = [ref.gen((r, r2), k + 2) for k in range(d)]
            if kind == "sym" and r == r2:
                ms = [m + m.T for m in ms]
            mb = ref.mode_product(bd, ms, range(d))
            with ctx.op("diag-dot_with_rank_one_metric", r2, kind, pure=[x, b, ms], sig="diag-metric"):
                ctx.close(x.dot_with_rank_one_metric(b, list(ms)), np.sum(y * mb), "diag-metric")
            if d > 1:
                for k in range(d):
                    dims = [i for i in range(d) if i != k]
                    want = np.tensordot(y, ref.mode_product(bd, [ms[i] for i in dims], dims), (dims, dims))
                    with ctx.op("diag-except_dim", r2, kind, k, pure=[x, b, ms], sig="diag-except_dim"):
                        g = x.tensordot_matrix_product_except_dim(b, list(ms), k)
                        ctx.close(g.data if isinstance(g, tensap.FullTensor) else g, want, "diag-except_dim")
        if r2 == r:
            for k in range(1, d + 1):
                for c1 in itertools.combinations(range(d), k):
                    for c2 in itertools.permutations(range(d), k):
                        with ctx.op("diag-tensordot", c1, c2, pure=[x, b], sig="diag-tensordot"):
                            same(ctx, x.tensordot(b, list(c1), list(c2)), np.tensordot(y, bd, (c1, c2)), "diag-tensordot")
    if d > 1:
        from .. import tbt
        with ctx.op("diag-tree_based_tensor", pure=P):
            tbt.check(ctx, x.tree_based_tensor(), y, "diag-tree_based_tensor")
        for T, num in ((t, n) for t in ref.unlabelled_shapes(d) for n in ("bfs", "post")):
            tree, _ = ref.build_tree(T, num)
            for mask in tbt.masks(d):
                act = np.array(tbt.activity(tree, mask))
                with ctx.op("diag-tree_based_tensor", T, num, mask, pure=P + [tree, act], sig="diag-tree_based_tensor"):
                    z = x.tree_based_tensor(tree, act)
                    tbt.check(ctx, z, y, "diag-tree_based_tensor")
                    ctx.same([bool(q) for q in z.is_active_node], [bool(q) for q in act], "diag-tree_based_tensor", "active nodes")


def run_hist(case, ctx):
    """every sequence of operations up to the depth"""
    s, r, depth = tuple(case["s"]), case["r"], case["depth"]
    b0, bd0 = cp(s, 2, 5)

    def ops(x, y):
        d = y.ndim
        yield "neg", lambda: -x, -y
        if y.shape == bd0.shape:
            yield "add", lambda: x + b0, y + bd0
            yield "sub", lambda: x - b0, y - bd0
            yield "rsub", lambda: b0 - x, bd0 - y
        yield "self-add", lambda: x + x, 2 * y
        for k in range(d):
            m = ref.gen((y.shape[k], y.shape[k]), k)
            yield "mode%d" % k, (lambda m=m, k=k: x.tensor_matrix_product(m, k)), ref.mode_product(y, [m], [k])
            m1 = ref.gen((1, y.shape[k]), k)
            yield "one%d" % k, (lambda m=m1, k=k: x.tensor_matrix_product(m, k)), ref.mode_product(y, [m1], [k])
            if d > 1:
                v = ref.gen((y.shape[k],), k)
                yield "vec%d" % k, (lambda v=v, k=k: x.tensor_vector_product(v, k)), ref.vec_product(y, [v], [k])
                for l in range(k + 1, d):
                    if y.shape[k] == y.shape[l]:
                        w = np.moveaxis(np.diagonal(y, 0, k, l), -1, k)
                        yield "diag%d%d" % (k, l), (lambda k=k, l=l: x.eval_diag([k, l])), w

    def rec(x, y, n, label):
        ctx.trace()
        ctx.state(label[:1], y.shape, [int(np.shape(a)[1]) for a in x.space])
        ctx.close(x.norm(), np.linalg.norm(y), "history/norm", tol=1e-6, scale=max(1, np.linalg.norm(y)))
        if n == 0:
            return
        for name, f, w in ops(x, y):
            with ctx.op(name, pure=[x, b0], sig="history"):
                z = f()
                same(ctx, z, w, "history")
                if isinstance(z, tensap.CanonicalTensor):
                    rec(z, w, n - 1, label + [name])
    x, y = cp(s, r)
    rec(x, y, depth, [])
