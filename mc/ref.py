"""Boring reference models: dense numpy tensors, explicit tree enumeration."""
import itertools

import numpy as np
import tensap

# ---------------------------------------------------------------------------
# deterministic generic data
_PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47]


def gen(shape, tag=0):
    """Generic (algebraically unrelated) numbers in [-1, 1] away from 0."""
    n = int(np.prod(shape)) if len(np.atleast_1d(shape)) else 1
    k = np.arange(1, n + 1)
    v = np.modf(k * np.sqrt(_PRIMES[tag % 15]) + (tag + 1) * 0.7390851332151607 + k * k * 0.123456789)[0]
    v = np.where(v < 0.5, -1.0, 1.0) * (0.2 + 0.8 * np.modf(v * 7.3891)[0])
    return v.reshape(shape, order="F") if n or True else v


# ---------------------------------------------------------------------------
# trees.  A reference tree is a nested tuple: a leaf is an int (the dimension),
# an internal node is a tuple of sub-trees.
def set_partitions(items):
    items = list(items)
    if not items:
        yield []
        return
    first, rest = items[0], items[1:]
    for k in range(len(rest) + 1):
        for comb in itertools.combinations(rest, k):
            block = [first] + list(comb)
            others = [x for x in rest if x not in comb]
            for p in set_partitions(others):
                yield [block] + p


def all_trees(dims):
    """All rooted trees with leaves labelled by dims, no unary node."""
    dims = tuple(dims)
    if len(dims) == 1:
        yield dims[0]
        return
    for part in set_partitions(dims):
        if len(part) < 2:
            continue
        for subs in itertools.product(*[list(all_trees(b)) for b in part]):
            yield tuple(subs)


def leaves(t):
    return (t,) if isinstance(t, int) else tuple(x for s in t for x in leaves(s))


def unlabelled_shapes(d):
    """One labelled representative (identity labelling in leaf order) per
    unordered shape."""
    seen, out = set(), []
    for t in all_trees(range(d)):
        k = shape_key(t)
        if k not in seen:
            seen.add(k)
            out.append(relabel(t, {x: i for i, x in enumerate(leaves(t))}))
    return out


def shape_key(t):
    return () if isinstance(t, int) else tuple(sorted((shape_key(s) for s in t), key=repr))


def relabel(t, m):
    return m[t] if isinstance(t, int) else tuple(relabel(s, m) for s in t)


def nodes_of(t, numbering="bfs"):
    """List of sub-trees in the order of their (1-based) node numbers."""
    if numbering == "bfs":
        out, q = [], [t]
        while q:
            n = q.pop(0)
            out.append(n)
            if not isinstance(n, int):
                q.extend(n)
        return out
    out = []

    def pre(n):
        out.append(n)
        if not isinstance(n, int):
            for s in n:
                pre(s)
    pre(t)
    if numbering == "post":           # root gets the highest number
        out.reverse()
    return out


def build_tree(t, numbering="bfs"):
    """-> (tensap.DimensionTree, {id-path -> node number}).  Nodes are
    identified by their position in the nested tuple."""
    paths = []

    def walk(n, p):
        paths.append((p, n))
        if not isinstance(n, int):
            for i, s in enumerate(n):
                walk(s, p + (i,))
    walk(t, ())
    if numbering == "bfs":
        paths.sort(key=lambda pn: (len(pn[0]), pn[0]))
    elif numbering == "post":
        paths.reverse()
    num = {p: i + 1 for i, (p, _) in enumerate(paths)}
    n = len(paths)
    A = np.zeros((n, n), dtype=int)
    d2i = {}
    for p, s in paths:
        if p:
            A[num[p[:-1]] - 1, num[p] - 1] = 1
        if isinstance(s, int):
            d2i[s] = num[p]
    dim2ind = np.array([d2i[k] for k in sorted(d2i)])
    return tensap.DimensionTree(dim2ind, A), num


def tree_key(T):
    """Structure of a tensap tree: nested tuple rebuilt from the adjacency
    matrix and dim2ind only."""
    A = np.asarray(T.adjacency_matrix) != 0
    n = A.shape[0]
    root = [i for i in range(n) if not A[:, i].any()]
    ind2dim = {int(v) - 1: k for k, v in enumerate(np.asarray(T.dim2ind).ravel())}

    def rec(i):
        ch = [j for j in range(n) if A[i, j]]
        if not ch:
            return ind2dim.get(i, ("?", i))
        return (i + 1,) + tuple(rec(j) for j in ch)
    return (len(root), tuple(rec(r) for r in root))


def nested(T):
    """tensap tree -> nested tuple of dimensions (children in node order)."""
    A = np.asarray(T.adjacency_matrix) != 0
    root = [i for i in range(A.shape[0]) if not A[:, i].any()]
    ind2dim = {int(v) - 1: k for k, v in enumerate(np.asarray(T.dim2ind).ravel())}

    def rec(i):
        ch = np.nonzero(A[i])[0]
        return ind2dim[i] if len(ch) == 0 else tuple(rec(j) for j in ch)
    return rec(root[0])


# ---------------------------------------------------------------------------
# dense values, computed from the stored parameters only
def dense(o):
    if isinstance(o, np.ndarray):
        return o
    if isinstance(o, (int, float, np.generic)):
        return np.asarray(float(o))
    if isinstance(o, tensap.FullTensor):
        return np.array(o.data, dtype=float)
    if isinstance(o, tensap.SparseTensor):
        out = np.zeros(tuple(int(x) for x in np.ravel(o.shape)))
        if np.size(o.indices.array):
            for idx, v in zip(np.atleast_2d(o.indices.array), np.ravel(o.data)):
                out[tuple(int(x) for x in idx)] += v
        return out
    if isinstance(o, tensap.DiagonalTensor):
        d = np.ravel(np.asarray(o.data, dtype=float))
        out = np.zeros((d.size,) * int(o.order))
        for i, v in enumerate(d):
            out[(i,) * int(o.order)] = v
        return out
    if isinstance(o, tensap.CanonicalTensor):
        core = np.ravel(np.asarray(o.core.data, dtype=float)) if isinstance(o.core, tensap.DiagonalTensor) else None
        if core is None:
            # orthogonalised form: the core is a full tensor
            out = np.array(o.core.data, dtype=float)
            for k, s in enumerate(o.space):
                out = np.moveaxis(np.tensordot(out, np.asarray(s, dtype=float), (k, 1)), -1, k)
            return out
        return cp_dense(o.space, core)
    if isinstance(o, tensap.TreeBasedTensor):
        return tbt_dense(o)
    raise TypeError(type(o))


def cp_dense(space, core):
    out = np.zeros(tuple(np.shape(s)[0] for s in space))
    for r, c in enumerate(core):
        term = np.array(float(c))
        for s in space:
            term = np.multiply.outer(term, np.asarray(s, dtype=float)[:, r])
        out = out + term
    return out


def tbt_dense(t):
    """Contract the cores of a tree-based tensor with numpy only."""
    T = t.tree
    A = np.asarray(T.adjacency_matrix) != 0
    root = [i for i in range(A.shape[0]) if not A[:, i].any()][0]
    dim2ind = [int(x) for x in np.asarray(T.dim2ind).ravel()]
    ind2dim = {v - 1: k for k, v in enumerate(dim2ind)}
    act = [bool(x) for x in t.is_active_node]

    def core(i):
        return np.asarray(t.tensors[i].data, dtype=float)

    def rec(i):
        """-> (array with axes dims..., rank), list of dims"""
        ch = [int(j) for j in np.nonzero(A[i])[0]]
        c = core(i)
        if not ch:
            return c, [ind2dim[i]]
        dims = []
        # contract children one after the other; keep remaining core axes first
        rank_axis = c.ndim == len(ch) + 1
        cur = c
        collected = []
        for k, j in enumerate(ch):
            # axis 0 of cur is child k (the previous ones have been moved to the end)
            if not act[j]:
                cur = np.moveaxis(cur, 0, -1)
                collected.append(ind2dim[j])
            else:
                m, dj = rec(j)
                cur = np.tensordot(cur, m, ([0], [m.ndim - 1]))
                collected.extend(dj)
        if rank_axis:
            cur = np.moveaxis(cur, 0, -1)
        return cur, collected

    arr, dims = rec(root)
    d = len(dims)
    perm = list(np.argsort(dims)) + list(range(d, arr.ndim))
    return np.transpose(arr, perm)


def node_frames(t):
    """-> (U, W): U[n] is the matrix (entries of the modes of node n) x rank,
    W[n] the matrix (root output and entries of the other modes) x rank, such
    that for every active node n the tensor is U[n] @ W[n].T (rows in C order
    of the sorted modes; the root output, if any, varies fastest in W)."""
    T = t.tree
    A = np.asarray(T.adjacency_matrix) != 0
    n = A.shape[0]
    root = [i for i in range(n) if not A[:, i].any()][0]
    dim2ind = [int(x) for x in np.asarray(T.dim2ind).ravel()]
    ind2dim = {v - 1: k for k, v in enumerate(dim2ind)}
    act = [bool(x) for x in t.is_active_node]
    ch = {i: [int(j) for j in np.nonzero(A[i])[0]] for i in range(n)}
    Ua = {}

    def up(i):
        """array with one axis per mode (sorted) and a rank axis"""
        c = np.asarray(t.tensors[i].data, dtype=float) if act[i] else None
        if not ch[i]:
            d = ind2dim[i]
            if act[i]:
                Ua[i] = ([d], c if c.ndim == 2 else c[:, None])
            return
        for j in ch[i]:
            up(j)
        if c.ndim == len(ch[i]):
            c = c[..., None]
        modes, cur = [], c
        for j in ch[i]:
            if act[j]:
                dj, u = Ua[j]
                cur = np.tensordot(cur, u, ([0], [u.ndim - 1]))
                modes += dj
            else:
                cur = np.moveaxis(cur, 0, -1)
                modes.append(ind2dim[j])
        cur = np.moveaxis(cur, 0, -1)
        perm = list(np.argsort(modes))
        Ua[i] = (sorted(modes), np.transpose(cur, perm + [len(modes)]))
    up(root)
    Wa = {root: ([], np.eye(Ua[root][1].shape[-1]))}

    def down(i):
        modes_w, w = Wa[i]            # axes: modes..., output, rank
        c = np.asarray(t.tensors[i].data, dtype=float)
        if c.ndim == len(ch[i]):
            c = c[..., None]
        for k, j in enumerate(ch[i]):
            if not act[j]:
                continue
            cur, modes = np.moveaxis(c, k, -1), []      # other children, rank_i, rank_j
            for l in ch[i]:
                if l == j:
                    continue
                if act[l]:
                    dl, u = Ua[l]
                    cur = np.tensordot(cur, u, ([0], [u.ndim - 1]))
                    modes += dl
                else:
                    cur = np.moveaxis(cur, 0, -1)
                    modes.append(ind2dim[l])
            # cur: rank_i, rank_j, modes...   w: modes_w..., out, rank_i
            cur = np.tensordot(w, cur, ([w.ndim - 1], [0]))
            allm = modes_w + [None] + [None] + modes    # modes_w, out, rank_j, modes
            nw = len(modes_w)
            pos = {m: a for a, m in enumerate(allm) if m is not None}
            srt = sorted(pos)
            cur = np.transpose(cur, [pos[m] for m in srt] + [nw, nw + 1])
            Wa[j] = (srt, cur)
            if ch[j]:
                down(j)
    if ch[root]:
        down(root)
    U = {i + 1: u.reshape(-1, u.shape[-1]) for i, (m, u) in Ua.items()}
    W = {i + 1: w.reshape(-1, w.shape[-1]) for i, (m, w) in Wa.items()}
    return U, W


# ---------------------------------------------------------------------------
# construction of tree-based tensors with generic cores
def make_tbt(tree, shape, ranks, active, tag=0, data=gen):
    """ranks: per node (1-based node - 1); active: per node bool."""
    n = tree.nb_nodes
    A = np.asarray(tree.adjacency_matrix) != 0
    dim2ind = [int(x) for x in tree.dim2ind]
    ind2dim = {v - 1: k for k, v in enumerate(dim2ind)}
    tensors = [[] for _ in range(n)]
    for i in range(n):
        ch = [int(j) for j in np.nonzero(A[i])[0]]
        if not active[i]:
            continue
        if not ch:
            s = [shape[ind2dim[i]], ranks[i]]
        else:
            s = [ranks[j] if active[j] else shape[ind2dim[j]] for j in ch]
            if not (i == int(tree.root) - 1 and ranks[i] == 1):
                s.append(ranks[i])
        tensors[i] = tensap.FullTensor(data(tuple(s), tag * 17 + i), len(s), s)
    return tensap.TreeBasedTensor(tensors, tree)


def active_patterns(T):
    """All choices of active leaves (internal nodes always active)."""
    leaf = [int(x) - 1 for x in T.dim2ind]
    for mask in itertools.product([True, False], repeat=len(leaf)):
        a = [True] * T.nb_nodes
        for i, m in zip(leaf, mask):
            a[i] = m
        yield a


def admissible(T, shape, ranks, active):
    """Rank of each active non-root node bounded by the sizes on both sides is
    not required for a valid object; this only caps leaf ranks at the leaf size."""
    return ranks


def mode_product(x, mats, dims):
    for m, d in zip(mats, dims):
        x = np.moveaxis(np.tensordot(x, m, (d, 1)), -1, d)
    return x


def vec_product(x, vecs, dims):
    for d, v in sorted(zip(dims, vecs), key=lambda p: -p[0]):
        x = np.tensordot(x, v, (d, 0))
    return x


def subsets(n, minsize=0, maxsize=None):
    for k in range(minsize, (n if maxsize is None else maxsize) + 1):
        yield from itertools.combinations(range(n), k)


def ordered_subsets(n, minsize=0, maxsize=None):
    for k in range(minsize, (n if maxsize is None else maxsize) + 1):
        yield from itertools.permutations(range(n), k)


# ---------------------------------------------------------------------------
class Choices:
    """Stateless depth-first enumeration of environment answers: run(fn) calls
    fn(choose) for every sequence of answers; choose(n) returns an int < n.
    At most `max_points` points are branched (later ones answer 0), and at most
    `max_dev` answers differ from 0 when given."""

    def __init__(self, max_points=12, max_dev=None, max_runs=10 ** 9):
        self.max_points, self.max_dev, self.max_runs = max_points, max_dev, max_runs
        self.runs = 0
        self.capped = False

    def explore(self, fn):
        stack = [[]]
        while stack:
            prefix = stack.pop()
            log = []

            def choose(n):
                i = len(log)
                if i < len(prefix):
                    c = prefix[i]
                    if c >= n:
                        raise RuntimeError("replay divergence")
                else:
                    c = 0
                log.append((c, n))
                return c
            if self.runs >= self.max_runs:
                self.capped = True
                return
            self.runs += 1
            yield fn(choose), [c for c, _ in log]
            for i in range(len(log) - 1, len(prefix) - 1, -1):
                if i >= self.max_points:
                    self.capped = self.capped or log[i][1] > 1
                    continue
                dev = sum(1 for c, _ in log[:i] if c)
                if self.max_dev is not None and dev >= self.max_dev:
                    continue
                for alt in range(log[i][1] - 1, 0, -1):
                    stack.append([c for c, _ in log[:i]] + [alt])
