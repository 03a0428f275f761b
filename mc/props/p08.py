"""Full tensors: every operation against its index-by-index definition."""
import itertools

import numpy as np
import tensap

from .. import ref

ID = "P08"
BOUNDS = {
    "quick": "all shapes over {1,2,3} for orders 1..3, all shapes over {1,2} and three mixed shapes of order 4; every operation with every "
             "(ordered) list of dimensions, every pair of dimension lists for contractions of tensors of order <= 3 (all "
             "diagonal/contraction combinations), every sub-tensor selection from a set of index lists (repeated, reversed, single, "
             "':'), rows of multi-indices enumerated exhaustively",
    "thorough": "as quick with all shapes over {1,2,3} of order 4 and contractions up to order 4",
}


def cases(tier):
    q = tier == "quick"
    shapes = [s for d in (1, 2, 3) for s in itertools.product((1, 2, 3), repeat=d)]
    shapes += list(itertools.product((1, 2), repeat=4)) + [(2, 3, 1, 2), (3, 2, 2, 3), (2, 3, 2, 3)] if q else \
        list(itertools.product((1, 2, 3), repeat=4))
    for s in shapes:
        yield {"kind": "one", "s": list(s)}
    two = [s for d in (1, 2, 3) for s in itertools.product((1, 2, 3), repeat=d) if d < 3 or s in
           ((2, 2, 2), (3, 2, 3), (1, 2, 2), (2, 3, 1))]
    for s in two:
        yield {"kind": "two", "s": list(s), "others": [list(x) for x in two]}
    for s in two:
        yield {"kind": "contract", "s": list(s), "others": [list(x) for x in two if len(x) <= (3 if not q or len(s) < 3 else 2)]}


def run(case, ctx):
    globals()["run_" + case["kind"]](case, ctx)


def full(ctx, x, want, sig, tol=1e-10):
    """x is a full tensor (or a scalar / array where the library returns one)"""
    want = np.asarray(want, dtype=float)
    if want.ndim and not ctx.check(isinstance(x, tensap.FullTensor), sig, "result is %r" % type(x)):
        return
    d = x.data if isinstance(x, tensap.FullTensor) else x
    if isinstance(x, tensap.FullTensor):
        ctx.same([int(v) for v in x.shape], list(np.shape(d)), sig, "shape")
        ctx.same(int(x.order), np.ndim(d), sig, "order")
    ctx.state(sig, want.shape)
    ctx.close(d, want, sig, tol=tol)


def run_one(case, ctx):
    s = tuple(case["s"])
    d = len(s)
    y = ref.gen(s, 0)
    x = tensap.FullTensor(y.copy())
    ctx.trace()
    P = [x]
    with ctx.op("attributes", pure=P):
        ctx.same([int(v) for v in x.shape], list(s), "shape")
        ctx.same([int(v) for v in x.size], list(s), "shape")
        ctx.same((int(x.order), int(x.ndim), int(x.storage()), int(x.sparse_storage())), (d, d, y.size, y.size), "attributes")
        z = y.copy()
        z.flat[0] = 0
        ctx.same(int(tensap.FullTensor(z).sparse_storage()), y.size - 1, "sparse_storage")
        full(ctx, tensap.FullTensor(y.ravel(order="F"), d, s), y, "constructor-vector")
        full(ctx, tensap.FullTensor(y, d + 1), y[..., None], "constructor-order")
        full(ctx, tensap.FullTensor(x), y, "constructor-copy")
        full(ctx, x.full(), y, "full")
        ctx.close(x.numpy(), y, "numpy")
    for name, f, w in [("neg", lambda: -x, -y), ("smul", lambda: x * 2.5, 2.5 * y), ("rsmul", lambda: 2.5 * x, 2.5 * y),
                       ("div", lambda: x / 2.5, y / 2.5), ("pow", lambda: x ** 2, y ** 2), ("pow3", lambda: x ** 3, y ** 3),
                       ("sadd", lambda: x + 1.5, y + 1.5), ("radd", lambda: 1.5 + x, y + 1.5), ("ssub", lambda: x - 1.5, y - 1.5),
                       ("rsub", lambda: 1.5 - x, 1.5 - y)]:
        with ctx.op(name, pure=P):
            full(ctx, f(), w, name)
    with ctx.op("norm", pure=P):
        ctx.close(x.norm(), np.sqrt(np.sum(y ** 2)), "norm")
    with ctx.op("getitem", pure=P):
        for i in np.ndindex(s):
            ctx.close(x[i], y[i], "getitem")
    # transposition, reshaping, matricisation
    for perm in itertools.permutations(range(d)):
        with ctx.op("transpose", perm, pure=P, sig="transpose"):
            w = np.transpose(y, perm)
            full(ctx, x.transpose(list(perm)), w, "transpose")
            full(ctx, x.itranspose(list(perm)), np.transpose(y, np.argsort(perm)), "itranspose")
            full(ctx, x.transpose(list(perm)).itranspose(list(perm)), y, "transpose-roundtrip")
    n = y.size
    for k in range(1, n + 1):
        if n % k == 0:
            with ctx.op("reshape", k, pure=P, sig="reshape"):
                full(ctx, x.reshape([k, n // k]), y.ravel(order="F").reshape((k, n // k), order="F"), "reshape")
                full(ctx, x.reshape([k, n // k]).reshape(list(s)), y, "reshape-roundtrip")
    for dims in ref.ordered_subsets(d, 1):
        rest = [k for k in range(d) if k not in dims]
        w = np.transpose(y, list(dims) + rest).reshape((int(np.prod([s[k] for k in dims])), -1), order="F")
        with ctx.op("matricize", dims, pure=P, sig="matricize"):
            m = x.matricize(list(dims))
            full(ctx, m, w, "matricize")
            back = m.reshape([s[k] for k in dims] + [s[k] for k in rest]).itranspose(list(dims) + rest)
            full(ctx, back, y, "matricize-roundtrip")
            if len(dims) == 1:
                full(ctx, x.matricize(dims[0]), w, "matricize-int")
                if dims[0] == y.ndim - 1:
                    full(ctx, x.matricize(-1), w, "matricize-last")
            for r2 in itertools.permutations(rest) if rest else ():
                full(ctx, x.matricize(list(dims), list(r2)),
                     np.transpose(y, list(dims) + list(r2)).reshape(w.shape, order="F"), "matricize-2")
        with ctx.op("principal_components", dims, pure=P, sig="principal_components"):
            sv = np.linalg.svd(w, compute_uv=False)
            for prm in (None, 1, 2, 100, 0.3, 0.7):
                V, S = x.alpha_principal_components(list(dims), prm)
                r = V.shape[1]
                ctx.close(V.T @ V, np.eye(r), "principal_components", msg="orthonormal")
                ctx.close(np.diag(np.atleast_2d(S)), sv[:r], "principal_components", msg="singular values")
                e = np.linalg.norm(w - V @ (V.T @ w))
                ctx.close(e, np.sqrt(np.sum(sv[r:] ** 2)), "principal_components", tol=1e-9, msg="error of %d components" % r)
                if prm is None or prm >= 1:
                    ctx.same(r, min(len(sv), prm or 10 ** 9), "principal_components", "number of components")
                else:
                    ctx.check(e < prm * np.linalg.norm(w) + 1e-12, "principal_components", "tolerance %s" % prm)
                    if r > 1:
                        ctx.check(np.sqrt(np.sum(sv[r - 1:] ** 2)) >= prm * np.linalg.norm(w) - 1e-12, "principal_components",
                                  "more components than needed for %s" % prm)
    for dims in [None] + list(ref.subsets(d, 1)):
        ax = None if dims is None else tuple(dims)
        with ctx.op("reduce", dims, pure=P, sig="reduce_sum"):
            for D in [None] if ax is None else [list(ax), np.array(ax)]:
                full(ctx, x.reduce_sum(D), np.sum(y, ax, keepdims=True), "reduce_sum")
                full(ctx, x.reduce_mean(D), np.mean(y, ax, keepdims=True), "reduce_mean")
            if ax is not None and len(ax) == 1:
                full(ctx, x.reduce_sum(ax[0]), np.sum(y, ax, keepdims=True), "reduce_sum")
        if dims is not None and all(s[k] == 1 for k in dims):
            with ctx.op("squeeze", dims, pure=P, sig="squeeze"):
                full(ctx, x.squeeze(list(dims)), np.squeeze(y, ax), "squeeze")
    with ctx.op("squeeze", pure=P, sig="squeeze"):
        full(ctx, x.squeeze(), np.squeeze(y), "squeeze")
    # evaluation at multi-indices
    allidx = np.array(list(np.ndindex(s)))
    with ctx.op("eval_at_indices", pure=P, sig="eval_at_indices"):
        for idx in (allidx, allidx[::-1], allidx[:1], allidx[[-1, 0, -1]]):
            ctx.close(x.eval_at_indices(idx), np.array([y[tuple(i)] for i in idx]), "eval_at_indices")
    for dims in ref.ordered_subsets(d, 1):
        sub = np.array(list(np.ndindex(tuple(s[k] for k in dims))))
        for idx in (sub, sub[::-1], sub[:1], sub[[-1, 0, -1]]):
            if idx.shape[0] == len(dims) != idx.shape[1]:
                continue
            # the common index replaces the smallest of the dimensions
            rest = [k for k in range(d) if k not in dims]
            out = []
            for i in idx:
                sl = [slice(None)] * d
                for k, v in zip(dims, i):
                    sl[k] = int(v)
                out.append(y[tuple(sl)])
            w = np.moveaxis(np.array(out), 0, len([k for k in rest if k < min(dims)]))
            with ctx.op("eval_at_indices", idx, dims, pure=P + [idx], sig="eval_at_indices-partial"):
                z = x.eval_at_indices(idx, list(dims))
                ctx.close(z.data if isinstance(z, tensap.FullTensor) else z, w, "eval_at_indices-partial")
        if len({s[k] for k in dims}) == 1:
            w = np.moveaxis(np.array([y[tuple(i if k in dims else slice(None) for k in range(d))] for i in range(s[dims[0]])]), 0,
                            len([k for k in range(d) if k not in dims and k < min(dims)]))
            with ctx.op("eval_diag", dims, pure=P, sig="eval_diag"):
                z = x.eval_diag(list(dims))
                ctx.close(z.data if isinstance(z, tensap.FullTensor) else z, w, "eval_diag")
                if len(dims) == d:
                    z = x.eval_diag()
                    ctx.close(z.data if isinstance(z, tensap.FullTensor) else z, w, "eval_diag")
    choice = [[":", [0], 0, [n - 1, 0], [0, 0, n - 1]] for n in s]
    for c in itertools.product(*(choice if d < 4 else [x[:4] for x in choice])):
        w = y
        for k, v in enumerate(c):
            if not isinstance(v, str):
                w = np.take(w, np.atleast_1d(v), axis=k)
        with ctx.op("sub_tensor", *c, pure=P, sig="sub_tensor"):
            full(ctx, x.sub_tensor(*c), w, "sub_tensor")
    # orthogonalisation
    for k in list(range(d)) + [-1]:
        with ctx.op("orth", k, pure=P, sig="orth"):
            q, R = x.orth(k)
            kk = k % d
            Q = np.moveaxis(q.data, kk, -1).reshape(-1, q.data.shape[kk])
            ctx.close(Q.T @ Q, np.eye(Q.shape[1]), "orth", msg="orthonormal")
            full(ctx, q.tensor_matrix_product(np.asarray(R).T, kk), y, "orth")
            ctx.same((bool(q.is_orth), int(q.orth_dim)), (True, kk), "orth", "flags")
    with ctx.op("orth-None", pure=P, sig="orth-None"):
        full(ctx, x.orth()[0], y, "orth-None")
    with ctx.op("singular_values", pure=P, sig="singular_values"):
        if d > 1:
            g = x.singular_values()
            for k in range(d if d > 2 else 1):
                w = np.linalg.svd(np.moveaxis(y, k, 0).reshape(s[k], -1), compute_uv=False)
                ctx.close(g[k] if d > 2 else g, w, "singular_values")
        else:
            ctx.close(np.ravel(x.singular_values()[0]), [np.linalg.norm(y)], "singular_values")
    # mode products
    for dims in [None] + list(ref.ordered_subsets(d, 1)):
        dd = list(range(d)) if dims is None else list(dims)
        mats = [ref.gen((2 + k % 2, s[k]), k + 1) for k in dd]
        vecs = [ref.gen((s[k],), k + 5) for k in dd]
        diag = [ref.gen((s[k],), k + 6) for k in dd]
        da = None if dims is None else list(dims)
        with ctx.op("tensor_matrix_product", dims, pure=P + mats, sig="tensor_matrix_product"):
            full(ctx, x.tensor_matrix_product(list(mats), da), ref.mode_product(y, mats, dd), "tensor_matrix_product")
            if len(dd) == 1 and dims is not None:
                full(ctx, x.tensor_matrix_product(mats[0], dims[0]), ref.mode_product(y, mats, dd), "tensor_matrix_product")
        with ctx.op("tensor_vector_product", dims, pure=P + vecs, sig="tensor_vector_product"):
            full(ctx, x.tensor_vector_product(list(vecs), da), ref.vec_product(y, vecs, dd), "tensor_vector_product")
            if len(dd) == 1 and dims is not None:
                full(ctx, x.tensor_vector_product(vecs[0], dims[0]), ref.vec_product(y, vecs, dd), "tensor_vector_product")
        with ctx.op("tensor_diagonal_matrix_product", dims, pure=P + diag, sig="tensor_diagonal_matrix_product"):
            full(ctx, x.tensor_diagonal_matrix_product(list(diag), da), ref.mode_product(y, [np.diag(v) for v in diag], dd),
                 "tensor_diagonal_matrix_product")
        mats = [ref.gen((3, s[k]), k + 1) for k in dd]
        rest = [k for k in range(d) if k not in dd]
        L = "abcdefg"
        w = np.einsum(",".join("n" + L[k] for k in dd) + "," + L[:d] + "->n" + "".join(L[k] for k in rest), *mats, y)
        with ctx.op("tensor_matrix_product_eval_diag", dims, pure=P + mats, sig="tensor_matrix_product_eval_diag"):
            z = x.tensor_matrix_product_eval_diag(list(mats), da)
            ctx.close(z.data if isinstance(z, tensap.FullTensor) else z, w, "tensor_matrix_product_eval_diag")
    with ctx.op("constructors", sig="constructors"):
        full(ctx, tensap.FullTensor.zeros(list(s)), np.zeros(s), "zeros")
        full(ctx, tensap.FullTensor.ones(list(s)), np.ones(s), "ones")
        v = ref.gen((s[0],), 3)
        for o in range(1, 5):
            w = np.zeros((s[0],) * o)
            for i in range(s[0]):
                w[(i,) * o] = v[i]
            full(ctx, tensap.FullTensor.diag(v, o), w, "diag")
        for r in (tensap.FullTensor.rand(list(s)), tensap.FullTensor.randn(list(s))):
            ctx.same(list(r.data.shape), list(s), "random", "shape")


def run_two(case, ctx):
    s = tuple(case["s"])
    d = len(s)
    y1 = ref.gen(s, 0)
    x1 = tensap.FullTensor(y1.copy())
    for o in case["others"]:
        s2 = tuple(o)
        y2 = ref.gen(s2, 1)
        x2 = tensap.FullTensor(y2.copy())
        P = [x1, x2]
        ctx.trace()
        if s2 == s:
            for name, f, w in (("add", lambda: x1 + x2, y1 + y2), ("sub", lambda: x1 - x2, y1 - y2), ("mul", lambda: x1 * x2, y1 * y2),
                               ("truediv", lambda: x1 / x2, y1 / y2), ("hadamard", lambda: x1.hadamard_product(x2), y1 * y2)):
                with ctx.op(name, pure=P):
                    full(ctx, f(), w, name)
            with ctx.op("dot", pure=P):
                ctx.close(x1.dot(x2), np.sum(y1 * y2), "dot")
            with ctx.op("eq", pure=P):
                ctx.same(bool(x1 == x2), bool(np.all(y1 == y2)), "eq")
                ctx.same(bool(x1 == tensap.FullTensor(y1)), True, "eq")
        if len(s2) == d:
            ms = [ref.gen((a, b), k + 2) for k, (a, b) in enumerate(zip(s, s2))]
            my = ref.mode_product(y2, ms, range(d))
            with ctx.op("dot_with_rank_one_metric", s2, pure=P + ms, sig="dot_with_rank_one_metric"):
                ctx.close(x1.dot_with_rank_one_metric(x2, list(ms)), np.sum(y1 * my), "dot_with_rank_one_metric")
            for k in range(d):
                with ctx.op("tensordot_matrix_product_except_dim", s2, k, pure=P + ms, sig="tensordot_matrix_product_except_dim"):
                    dims = [i for i in range(d) if i != k]
                    w = np.tensordot(y1, ref.mode_product(y2, [ms[i] for i in dims], dims), (dims, dims))
                    z = x1.tensordot_matrix_product_except_dim(x2, list(ms), k)
                    ctx.close(z.data if isinstance(z, tensap.FullTensor) else z, w, "tensordot_matrix_product_except_dim")
            for dims in [None] + list(ref.subsets(d, 1)):
                dd = range(d) if dims is None else dims
                if any(s[k] != s2[k] for k in range(d) if k not in dd):
                    continue
                w = np.zeros(tuple(s[k] + s2[k] if k in dd else s[k] for k in range(d)))
                w[tuple(slice(0, n) for n in s)] += y1
                w[tuple(slice(s[k] if k in dd else 0, None) for k in range(d))] += y2
                with ctx.op("cat", s2, dims, pure=P, sig="cat"):
                    full(ctx, x1.cat(x2, None if dims is None else list(dims)), w, "cat")
        m = max(d, len(s2))
        a = y1.reshape(s + (1,) * (m - d))
        b = y2.reshape(s2 + (1,) * (m - len(s2)))
        with ctx.op("kron", s2, pure=P, sig="kron" if d == len(s2) else "kron-orders"):
            full(ctx, x1.kron(x2), np.kron(a, b), "kron" if d == len(s2) else "kron-orders")


def run_contract(case, ctx):
    s = tuple(case["s"])
    d = len(s)
    y1 = ref.gen(s, 0)
    x1 = tensap.FullTensor(y1.copy())
    for o in case["others"]:
        s2 = tuple(o)
        d2 = len(s2)
        y2 = ref.gen(s2, 1)
        x2 = tensap.FullTensor(y2.copy())
        P = [x1, x2]
        ctx.trace()
        with ctx.op("outer", s2, pure=P, sig="outer"):
            full(ctx, x1.tensordot(x2, 0), np.multiply.outer(y1, y2), "outer")
        for k in range(0, min(d, d2) + 1):
            for c1 in itertools.permutations(range(d), k):
                if k and c1 != tuple(sorted(c1)) and d + d2 > 5:
                    continue
                for c2 in itertools.permutations(range(d2), k):
                    if any(s[a] != s2[b] for a, b in zip(c1, c2)):
                        continue
                    if k:
                        with ctx.op("tensordot", s2, c1, c2, pure=P, sig="tensordot"):
                            full(ctx, x1.tensordot(x2, list(c1), list(c2)), np.tensordot(y1, y2, (c1, c2)), "tensordot")
                    diag(ctx, x1, y1, x2, y2, c1, c2, P)


def diag(ctx, x1, y1, x2, y2, c1, c2, P):
    """tensordot_eval_diag with contraction c1/c2 and every choice of diagonals"""
    s, s2 = y1.shape, y2.shape
    f1 = [k for k in range(len(s)) if k not in c1]
    f2 = [k for k in range(len(s2)) if k not in c2]
    L1 = list("abcdef"[:len(s)])
    L2 = list("uvwxyz"[:len(s2)])
    for a, b in zip(c1, c2):
        L2[b] = L1[a]

    def out(l1, l2):
        o = []
        for c in l1 + l2:
            if c not in o and c not in [L1[a] for a in c1]:
                o.append(c)
        return o
    ded = (list(c1), list(c2))
    # one common diagonal over any dimensions of both
    for e1 in ref.subsets(len(f1), 1):
        for e2 in ref.subsets(len(f2), 1):
            g1, g2 = [f1[i] for i in e1], [f2[i] for i in e2]
            if len({s[k] for k in g1} | {s2[k] for k in g2}) != 1:
                continue
            l1, l2 = list(L1), list(L2)
            for k in g1:
                l1[k] = L1[g1[0]]
            for k in g2:
                l2[k] = L1[g1[0]]
            w = np.einsum("%s,%s->%s" % ("".join(l1), "".join(l2), "".join(out(l1, l2))), y1, y2)
            with ctx.op("tensordot_eval_diag", s2, c1, c2, g1, g2, pure=P, sig="tensordot_eval_diag"):
                full(ctx, x1.tensordot_eval_diag(x2, ded[0], ded[1], g1, g2), w, "tensordot_eval_diag")
                if not c1:
                    full(ctx, x1.outer_product_eval_diag(x2, g1, g2), w, "outer_product_eval_diag")
    # several diagonals
    for k in range(0, min(len(f1), len(f2)) + 1):
        for g1 in itertools.combinations(f1, k):
            for g2 in itertools.permutations(f2, k):
                if any(s[a] != s2[b] for a, b in zip(g1, g2)):
                    continue
                l1, l2 = list(L1), list(L2)
                for a, b in zip(g1, g2):
                    l2[b] = l1[a]
                w = np.einsum("%s,%s->%s" % ("".join(l1), "".join(l2), "".join(out(l1, l2))), y1, y2)
                with ctx.op("tensordot_eval_diag-multi", s2, c1, c2, g1, g2, pure=P, sig="tensordot_eval_diag-multi"):
                    full(ctx, x1.tensordot_eval_diag(x2, ded[0], ded[1], list(g1), list(g2), True), w, "tensordot_eval_diag-multi")
                    if not c1:
                        full(ctx, x1.outer_product_eval_diag(x2, list(g1), list(g2), True), w, "outer_product_eval_diag-multi")
