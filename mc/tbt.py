"""Configurations of tree-based tensors and the structural oracle for results."""
import itertools

import numpy as np
import tensap

from . import ref
from .trees import M, check_tree


def tup(t):
    return t if isinstance(t, int) else tuple(tup(x) for x in t)


SHAPES = [(2, 3, 2, 3, 2), (1, 2, 3, 2, 1), (2, 2, 2, 2, 2), (3, 1, 2, 1, 3), (3, 4, 2, 3, 2)]


def rank_pattern(n, root, p, rootrank=1):
    r = {0: [1] * n, 1: [1 + (i % 2) for i in range(n)], 2: [2 - (i % 2) for i in range(n)], 3: [2] * n,
         4: [2 + (i % 2) for i in range(n)], 5: [1 + (i % 3) for i in range(n)]}[p]
    r[root - 1] = rootrank
    return r


def tree_cases(orders, numberings=("bfs",), unary=False):
    for d in orders:
        for t in ref.all_trees(range(d)):
            for num in (numberings if not callable(numberings) else numberings(d)):
                yield {"t": t, "num": num}


def activity(T, mask):
    """mask: one flag per dimension (True: active leaf)."""
    a = [True] * T.nb_nodes
    for k, n in enumerate(T.dim2ind):
        a[int(n) - 1] = bool(mask[k])
    return a


def masks(d):
    return list(itertools.product([1, 0], repeat=d))


def active_cases(orders, numberings=("bfs",)):
    for c in tree_cases(orders, numberings):
        d = len(ref.leaves(c["t"]))
        for m in masks(d):
            yield dict(c, act=list(m))


def make(case, p=1, s=0, rootrank=1, tag=0, act=None, data=ref.gen):
    T, _ = ref.build_tree(tup(case["t"]), case["num"])
    d = len(T.dim2ind)
    shape = SHAPES[s][:d] if not isinstance(s, (list, tuple)) else tuple(s)
    a = activity(T, case["act"] if act is None else act)
    r = rank_pattern(T.nb_nodes, int(T.root), p, rootrank) if not isinstance(p, (list, tuple)) else list(p)
    r = [x if y else 0 for x, y in zip(r, a)]
    return ref.make_tbt(T, shape, r, a, tag, data)


def core_shape(c):
    return tuple(np.shape(c.data)) if isinstance(c, tensap.FullTensor) else tuple(np.shape(c))


CONSISTENT = set()


def tree_state(T):
    def flat(v):
        return tuple(flat(x) for x in v) if isinstance(v, (list, tuple)) or isinstance(v, np.ndarray) and v.dtype == object else \
            (v.shape, tuple(v.ravel().tolist())) if isinstance(v, np.ndarray) else repr(v)
    return tuple((k, flat(v)) for k, v in sorted(vars(T).items()))


def structure(ctx, t, sig, tree_model=None):
    """shape, order, ranks, active nodes agree with the stored cores."""
    s = sig + "/structure"
    if not ctx.check(isinstance(t, tensap.TreeBasedTensor), s, "result is %r" % type(t)):
        return None
    key = tree_state(t.tree)
    if key in CONSISTENT:
        m = M.of(t.tree)
    else:
        m = check_tree(ctx, t.tree, s)
        if s + "/inconsistent" not in ctx._sigs:
            CONSISTENT.add(key)
    if tree_model is not None:
        ctx.check(m.key() == tree_model.key(), s, "tree %s expected %s" % (m.key(), tree_model.key()))
    n = len(m.nodes)
    ok = ctx.same(len(t.tensors), n, s, "number of cores")
    act = [bool(np.size(t.tensors[i].data)) for i in range(n)] if ok else None
    ok = ok and ctx.same([bool(x) for x in t.is_active_node], act, s, "is_active_node")
    ok = ok and ctx.same(sorted(int(x) for x in t.active_nodes), [i + 1 for i in range(n) if act[i]], s, "active_nodes")
    d = len(m.leafdim)
    ok = ok and ctx.same(int(t.order), d, s, "order")
    if not ok:
        return None
    rk, shp = [0] * n, [0] * d
    for x in m.nodes:
        c = core_shape(t.tensors[x - 1])
        ch = m.children[x]
        if not act[x - 1]:
            ctx.check(not ch, s, "inactive internal node")
            continue
        ctx.same(int(t.tensors[x - 1].order), len(c), s, "order of core %d" % x)
        ctx.same([int(v) for v in np.ravel(t.tensors[x - 1].shape)], list(c), s, "shape of core %d" % x)
        if not ch:
            # the single node of an order-1 tensor may hold a plain vector
            if not ctx.check(len(c) == 2 or (len(c) == 1 and x == m.root), s, "leaf core has shape %s" % (c,)):
                return None
            shp[m.leafdim[x]] = c[0]
            rk[x - 1] = c[-1] if len(c) == 2 else 1
        else:
            has = len(c) == len(ch) + 1
            if not ctx.check(has or (x == m.root and len(c) == len(ch)), s, "core %d has shape %s for %d children" % (x, c, len(ch))):
                return None
            rk[x - 1] = c[-1] if has else 1
    for x in m.nodes:
        c = core_shape(t.tensors[x - 1])
        for k, y in enumerate(m.children[x]):
            if act[y - 1]:
                ctx.same(c[k], rk[y - 1], s, "core %d axis %d vs rank of %d" % (x, k, y))
            else:
                shp[m.leafdim[y]] = c[k]
    ctx.same([int(v) for v in np.ravel(t.ranks)], rk, s, "ranks")
    ctx.same([int(v) for v in np.ravel(t.shape)], shp, s, "shape")
    return m


def check(ctx, t, want, sig, tol=1e-9, rootrank=None, scale=None):
    """t is a structurally consistent tree-based tensor with dense value want."""
    m = structure(ctx, t, sig)
    if m is None:
        return False
    try:
        got = ref.tbt_dense(t)
    except Exception as e:  # noqa
        ctx.fail(sig + "/structure", "cores do not fit together: %r" % e)
        return False
    want = np.asarray(want, dtype=float)
    if got.ndim == want.ndim + 1 and got.shape[-1] == 1:
        got = got[..., 0]
    ctx.state(sig.split("/")[0], m.key(), [bool(x) for x in t.is_active_node], [int(x) for x in t.ranks],
              list(want.shape))
    return ctx.close(got, want, sig, tol=tol, scale=scale, msg="dense value:")
