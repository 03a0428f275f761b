"""Sparse tensors against dense arrays."""
import itertools

import numpy as np
import tensap

from .. import ref

ID = "P10"
BOUNDS = {
    "quick": "every set of nonzero positions (2^n, from empty to full) of the shapes (2,), (3,), (2,2), (1,2), (2,3), (3,2), (2,1,2), "
             "(1,1) and every set of at most 2 or at least 7 positions of (2,2,2), plus every pattern of at most 2 nonzeros of "
             "(2,3,2) and (2,2,1,2); every list of dimensions for products, every permutation and every reshape target; all "
             "pairs of patterns for binary operations on the shapes with at most 4 entries; all two-operation histories",
    "thorough": "as quick, with every pattern of (2,2,2) and every pattern of at most 3 nonzeros of the larger shapes and of (2,2,2,2), "
                "all pairs of patterns for shapes with at most 6 entries",
}


def patterns(shape, kmax=None, kmin=None):
    n = int(np.prod(shape))
    for b in range(2 ** n):
        c = bin(b).count("1")
        if kmax is None or c <= kmax or (kmin is not None and c >= kmin):
            yield b


def cases(tier):
    q = tier == "quick"
    todo = [(s, None, None) for s in ((2,), (3,), (1,), (2, 2), (1, 2), (1, 1), (2, 3), (3, 2), (2, 1, 2))]
    todo += [((2, 2, 2), 2, 7) if q else ((2, 2, 2), None, None)]
    todo += [(s, 2 if q else 3, None) for s in ((2, 3, 2), (2, 2, 1, 2))]
    if not q:
        todo.append(((2, 2, 2, 2), 3, None))
    for s, kmax, kmin in todo:
        bs = list(patterns(s, kmax, kmin))
        for i in range(0, len(bs), 16):
            yield {"kind": "unary", "s": list(s), "b": bs[i:i + 16]}
    for s in ((2,), (3,), (2, 2), (1, 2), (2, 1, 2)) + (() if q else ((2, 3),)):
        for b in patterns(s):
            yield {"kind": "pairs", "s": list(s), "b": b}
    for s in ((2, 2), (2, 1, 2), (2, 3)):
        bs = list(patterns(s, 2 if q else 4, 6))
        for i in range(0, len(bs), 4):
            yield {"kind": "hist", "s": list(s), "b": bs[i:i + 4], "depth": 2}


def run(case, ctx):
    globals()["run_" + case["kind"]](case, ctx)


def make(shape, b, tag=0):
    y = ref.gen(shape, tag).reshape(shape)
    m = np.array([(b >> i) & 1 for i in range(y.size)]).reshape(shape)
    y = y * m
    idx = np.argwhere(y != 0)
    return tensap.SparseTensor(y[tuple(idx.T)], tensap.MultiIndices(idx.reshape(-1, len(shape))), np.array(shape)), y


def dense(x):
    out = np.zeros(tuple(int(v) for v in np.atleast_1d(x.shape)))
    ar, da = np.asarray(x.indices.array), np.atleast_1d(np.asarray(x.data, dtype=float))
    if da.size != ar.shape[0]:
        raise ValueError("data size %d but %d indices" % (da.size, ar.shape[0]))
    for i, v in zip(ar, da):
        if out[tuple(int(k) for k in i)] != 0:
            raise ValueError("repeated index")
        out[tuple(int(k) for k in i)] += v
    return out


def val(a):
    if isinstance(a, tensap.FullTensor):
        a = a.data
    return a.toarray() if hasattr(a, "toarray") else a


def same(ctx, x, want, sig, tol=1e-10):
    want = np.asarray(want, dtype=float)
    if want.ndim == 0:
        ctx.same(int(np.size(x)), 1, sig, "scalar expected")
        ctx.close(float(np.ravel(x)[0]), want, sig, tol=tol)
        return
    if not ctx.check(isinstance(x, tensap.SparseTensor), sig, "result is %r" % type(x)):
        return
    ctx.same([int(v) for v in np.atleast_1d(x.shape)], list(want.shape), sig, "shape")
    ctx.same((int(x.order), int(x.ndim)), (want.ndim,) * 2, sig, "order")
    ctx.same(int(x.size), want.size, sig, "size")
    ctx.close(dense(x), want, sig, tol=tol)
    f = x.full()
    ctx.check(isinstance(f, tensap.FullTensor), sig, "full() type")
    ctx.close(f.data, want, sig, tol=tol, msg="full():")
    n = len(np.asarray(x.indices.array))
    ctx.same((int(x.storage()), int(x.sparse_storage()), int(x.count_non_zero())), (n,) * 3, sig, "counts")
    ctx.same(int(np.size(x.data)), n, sig, "data size")
    ctx.state(sig, list(want.shape), (want != 0).tobytes())


def tmats(shape, dims, tag=0):
    return [ref.gen((2 + (k + tag) % 2, shape[k]), k + tag) for k in dims]


def run_unary(case, ctx):
    s = tuple(case["s"])
    d = len(s)
    for b in case["b"]:
        x, y = make(s, b)
        P = [x]
        ctx.trace()
        with ctx.step("pattern %s" % format(b, "b")):
            one(ctx, x, y, s, d, P)


def one(ctx, x, y, s, d, P):
    with ctx.op("expand", pure=P):
        same(ctx, x, y, "expand")
        ctx.same(int(x.storage()), int(np.count_nonzero(y)), "storage")
        if d == 2:
            ctx.close(x.numpy().toarray(), y, "numpy")
    with ctx.op("from_dense"):
        same(ctx, tensap.SparseTensor(y.copy()), y, "from_dense")
        same(ctx, tensap.SparseTensor(x), y, "from_dense/copy")
        ctx.same(int(tensap.SparseTensor(y.copy()).storage()), int(np.count_nonzero(y)), "from_dense/storage")
    every = list(itertools.product(*[range(n) for n in s]))
    for ind in ([every] + [[e] for e in every] + [every[::-1], [every[0], every[-1], every[0]]]):
        a = np.array(ind)
        for arg in (a, tensap.MultiIndices(a)):
            with ctx.op("eval_at_indices", ind, pure=P + [a], sig="eval_at_indices"):
                ctx.close(np.ravel(val(x.eval_at_indices(arg))), y[tuple(a.T)], "eval_at_indices")
    for p in itertools.permutations(range(d)):
        with ctx.op("transpose", p, pure=P, sig="transpose"):
            same(ctx, x.transpose(list(p)), np.transpose(y, p), "transpose")
            same(ctx, x.itranspose(list(p)), np.transpose(y, np.argsort(p)), "itranspose")
            same(ctx, x.transpose(np.array(p)).itranspose(np.array(p)), y, "transpose/inverse")
    for t in factorisations(y.size):
        with ctx.op("reshape", t, pure=P, sig="reshape"):
            same(ctx, x.reshape(list(t)), y.reshape(t, order="F"), "reshape")
    for dims in [None] + list(ref.ordered_subsets(d, 1)):
        dd = list(range(d)) if dims is None else list(dims)
        for da in [None] if dims is None else [list(dims), np.array(dims)]:
            vecs = [ref.gen((s[k],), k + 5) for k in dd]
            mats = tmats(s, dd)
            keep = [da] if isinstance(da, np.ndarray) else []
            with ctx.op("tensor_vector_product", dims, pure=P + vecs + keep, sig="tensor_vector_product"):
                same(ctx, x.tensor_vector_product(list(vecs), da), ref.vec_product(y, vecs, dd), "tensor_vector_product")
            with ctx.op("tensor_matrix_product", dims, pure=P + mats + keep, sig="tensor_matrix_product"):
                same(ctx, x.tensor_matrix_product(list(mats), da), ref.mode_product(y, mats, dd), "tensor_matrix_product")
            sel = [np.eye(s[k])[:1] if k % 2 == 0 else np.eye(s[k])[::-1] for k in dd]   # makes entries vanish
            with ctx.op("tensor_matrix_product/select", dims, pure=P, sig="tensor_matrix_product/select"):
                same(ctx, x.tensor_matrix_product(sel, da), ref.mode_product(y, sel, dd), "tensor_matrix_product/select")
            with ctx.op("tensor_diagonal_matrix_product", dims, pure=P + vecs + keep, sig="tensor_diagonal_matrix_product"):
                same(ctx, x.tensor_diagonal_matrix_product(list(vecs), da),
                     ref.mode_product(y, [np.diag(v) for v in vecs], dd), "tensor_diagonal_matrix_product")
        if len(dd) == 1 and dims is not None:
            with ctx.op("product with a single matrix", dims, pure=P, sig="single"):
                same(ctx, x.tensor_vector_product(vecs[0], dd[0]), ref.vec_product(y, vecs, dd), "single")
                same(ctx, x.tensor_matrix_product(mats[0], dd[0]), ref.mode_product(y, mats, dd), "single")
    mats = [ref.gen((3, s[k]), k) for k in range(d)]
    with ctx.op("tensor_matrix_product_eval_diag", pure=P + mats):
        L = "abcdefg"
        w = np.einsum(",".join("n" + L[k] for k in range(d)) + "," + L[:d] + "->n", *mats, y)
        ctx.close(np.ravel(val(x.tensor_matrix_product_eval_diag(list(mats)))), w, "tensor_matrix_product_eval_diag")
    with ctx.op("norm", pure=P):
        ctx.close(float(x.norm()), np.linalg.norm(y), "norm")
    if len(set(s)) == 1 and d > 1:
        with ctx.op("eval_diag", pure=P):
            ctx.close(np.ravel(val(x.eval_diag())), [y[(i,) * d] for i in range(s[0])], "eval_diag")


def factorisations(n):
    out = {(n,)}
    for k in (1, 2, 3):
        for t in itertools.product(range(1, n + 1), repeat=k):
            if np.prod(t) == n:
                out.add(t)
    return sorted(out)


def run_pairs(case, ctx):
    s = tuple(case["s"])
    x, y = make(s, case["b"])
    d = len(s)
    M = [ref.gen((n, n), k + 3) for k, n in enumerate(s)]
    for b2 in patterns(s):
        for tag in (1, 0):
            z, w = make(s, b2, tag)
            if tag == 0:
                z, w = tensap.SparseTensor(-z.data, z.indices, z.shape), -w       # cancellation with x
            ctx.trace()
            with ctx.step("patterns %s,%s" % (case["b"], b2)):
                with ctx.op("add", pure=[x, z]):
                    same(ctx, x + z, y + w, "add")
                with ctx.op("mul", pure=[x, z]):
                    same(ctx, x * z, y * w, "mul")
                with ctx.op("dot", pure=[x, z]):
                    ctx.close(float(x.dot(z)), np.sum(y * w), "dot")
                with ctx.op("mul/full", pure=[x]):
                    same(ctx, x * tensap.FullTensor(w), y * w, "mul/full")
                    ctx.close(float(x.dot(tensap.FullTensor(w))), np.sum(y * w), "dot/full")
                with ctx.op("dot_with_rank_one_metric", pure=[x, z] + M):
                    ctx.close(float(x.dot_with_rank_one_metric(z, list(M))),
                              np.sum(y * ref.mode_product(w, M, list(range(d)))), "dot_with_rank_one_metric")


def steps(x, y, s):
    d = y.ndim
    t = tuple(y.shape)
    z, w = make(t, 0b1011, 2)
    yield "add", lambda: x + z, y + w
    yield "mul", lambda: x * z, y * w
    for k in range(d):
        m = tmats(t, [k], 1)
        yield "matrix%d" % k, lambda k=k, m=m: x.tensor_matrix_product(m, [k]), ref.mode_product(y, m, [k])
        if d > 1:
            v = [ref.gen((t[k],), 4)]
            yield "vector%d" % k, lambda k=k, v=v: x.tensor_vector_product(v, [k]), ref.vec_product(y, v, [k])
    p = list(range(d))[::-1]
    yield "transpose", lambda: x.transpose(p), np.transpose(y, p)
    yield "reshape", lambda: x.reshape([y.size]), y.reshape([y.size], order="F")


def run_hist(case, ctx):
    for b in case["b"]:
        x, y = make(tuple(case["s"]), b)
        walk(ctx, x, y, case["depth"])
        ctx.trace()


def walk(ctx, x, y, depth):
    if depth == 0:
        return
    for name, f, w in steps(x, y, y.shape):
        got = None
        with ctx.op(name, pure=[x], sig="hist/" + name.rstrip("0123456789")):
            got = f()
            same(ctx, got, w, "hist/" + name.rstrip("0123456789"))
        if isinstance(got, tensap.SparseTensor):
            with ctx.step(name):
                walk(ctx, got, w, depth - 1)
