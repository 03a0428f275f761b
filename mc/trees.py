"""Reference model of a dimension tree and the consistency invariant."""
import numpy as np


class M:
    """children: {node: [nodes]}, leafdim: {leaf node: dim} (1-based nodes)."""

    def __init__(self, children, leafdim):
        self.children, self.leafdim = children, leafdim
        self.nodes = sorted(children)
        self.parent = {c: p for p, cs in children.items() for c in cs}
        roots = [n for n in self.nodes if n not in self.parent]
        assert len(roots) == 1, roots
        self.root = roots[0]
        self.level = {}
        self.dims = {}
        stack = [(self.root, 0)]
        order = []
        while stack:
            n, l = stack.pop()
            self.level[n] = l
            order.append(n)
            stack.extend((c, l + 1) for c in children[n])
        for n in reversed(order):
            if children[n]:
                self.dims[n] = frozenset().union(*[self.dims[c] for c in children[n]])
            else:
                self.dims[n] = frozenset([leafdim[n]])

    @classmethod
    def of(cls, T):
        A = np.asarray(T.adjacency_matrix) != 0
        n = A.shape[0]
        children = {i + 1: [int(j) + 1 for j in np.nonzero(A[i])[0]] for i in range(n)}
        leafdim = {int(v): k for k, v in enumerate(np.asarray(T.dim2ind).ravel())}
        return cls(children, leafdim)

    def key(self):
        def rec(n):
            c = self.children[n]
            return (n, self.leafdim[n]) if not c else (n, tuple(rec(x) for x in sorted(c)))
        return rec(self.root)

    def groups(self):
        g = {}
        for n in self.nodes:
            g.setdefault(self.level[n], set()).add(self.dims[n])
        return g

    def ascendants(self, n):
        out = []
        while n in self.parent:
            n = self.parent[n]
            out.append(n)
        return out

    def descendants(self, n):
        out = []
        for c in self.children[n]:
            out.append(c)
            out.extend(self.descendants(c))
        return out

    # -- operations -------------------------------------------------------
    def change_root(self, nod):
        if nod == self.root:
            return self
        ch = {n: set(c) for n, c in self.children.items()}
        path = [nod] + self.ascendants(nod)
        for a, b in zip(path[:-1], path[1:]):
            ch[b].discard(a)
            ch[a].add(b)
        ld = dict(self.leafdim)
        if nod in ld:
            new = max(self.nodes) + 1
            ch[nod].add(new)
            ch[new] = set()
            ld[new] = ld.pop(nod)
        return M({n: sorted(c) for n, c in ch.items()}, ld)

    def permute(self, sigma):
        return M(dict(self.children), {n: int(sigma[k]) for n, k in self.leafdim.items()})

    def swap(self, a, b):
        """exchange the positions of two nodes (with their sub-trees)"""
        pa, pb = self.parent[a], self.parent[b]
        ch = {n: set(c) for n, c in self.children.items()}
        ch[pa].discard(a)
        ch[pb].discard(b)
        ch[pa].add(b)
        ch[pb].add(a)
        return M({n: sorted(c) for n, c in ch.items()}, dict(self.leafdim))

    def nested(self, drop_unary=False):
        """hashable nested frozensets of dimensions"""
        def rec(n):
            c = self.children[n]
            if not c:
                return self.leafdim[n]
            if drop_unary and len(c) == 1:
                return rec(c[0])
            return tuple(sorted((rec(x) for x in c), key=repr))
        return rec(self.root)

    def add_child(self, nod):
        new = max(self.nodes) + 1
        ch = {n: list(c) for n, c in self.children.items()}
        ch[nod].append(new)
        ch[new] = []
        ld = dict(self.leafdim)
        if nod in ld:
            ld[new] = ld.pop(nod)
        else:
            ld[new] = len(ld)
        return M(ch, ld)


def ints(a):
    return [int(x) for x in np.ravel(a)]


def check_tree(ctx, T, sig, expect=None):
    """All attributes of the library tree T describe one consistent tree (and
    that tree is `expect`, if given)."""
    n = np.asarray(T.adjacency_matrix).shape[0]
    A = np.asarray(T.adjacency_matrix)
    s = sig + "/inconsistent"
    ctx.check(A.ndim == 2 and A.shape == (n, n) and set(np.unique(A)) <= {0, 1}, s, "adjacency matrix not 0/1 square")
    m = M.of(T)
    if expect is not None:
        ctx.check(m.key() == expect.key(), sig + "/wrong-tree", "tree %s, expected %s" % (m.key(), expect.key()))
    d = len(m.leafdim)
    ctx.check(len(m.level) == n, s, "not all nodes reachable from the root")
    ctx.same(sorted(m.leafdim.values()), list(range(d)), s, "leaf dimensions")
    ctx.same(sorted(m.leafdim), [x for x in m.nodes if not m.children[x]], s, "leaves of the adjacency matrix")
    ctx.same(int(T.nb_nodes), n, s, "nb_nodes")
    ctx.same(int(T.root), m.root, s, "root")
    ctx.same(ints(T.nodes_indices), m.nodes, s, "nodes_indices")
    ctx.same(int(T.arity), max(len(c) for c in m.children.values()), s, "arity")
    ctx.same(ints(T.level), [m.level[x] for x in m.nodes], s, "level")
    ctx.same([bool(x) for x in T.is_leaf], [not m.children[x] for x in m.nodes], s, "is_leaf")
    ctx.same(sorted(ints(T.internal_nodes)), [x for x in m.nodes if m.children[x]], s, "internal nodes")
    ctx.same(sorted(ints(T.nodes_parent_of_leaves)),
             sorted({m.parent.get(x, 0) for x in m.leafdim}), s, "nodes_parent_of_leaves")
    ctx.same(len(T.dims), n, s, "number of dims entries")
    for x in m.nodes:
        ctx.same(sorted(ints(T.children(x))), sorted(m.children[x]), s, "children(%d)" % x)
        ctx.same(int(T.parent(x)), m.parent.get(x, 0), s, "parent(%d)" % x)
        ctx.same(ints(T.ascendants(x)), m.ascendants(x), s, "ascendants(%d)" % x)
        ctx.same(sorted(ints(T.descendants(x))), sorted(m.descendants(x)), s, "descendants(%d)" % x)
        ctx.same(sorted(ints(T.dims[x - 1])), sorted(m.dims[x]), s, "dims of node %d" % x)
        for k, c in enumerate(ints(T.children(x))):
            ctx.same(int(T.child_number(c)), k + 1, s, "child_number(%d)" % c)
        if x in m.parent:
            sib = [y for y in ints(T.sibling[:, x - 1]) if y]
            ctx.same(sorted(sib), sorted(m.children[m.parent[x]]), s, "sibling(%d)" % x)
        nd = ints(T.node_with_dims(sorted(m.dims[x], reverse=True)))
        ctx.same(sorted(nd), [y for y in m.nodes if m.dims[y] == m.dims[x]], s, "node_with_dims")
    for l in range(max(m.level.values()) + 1):
        ctx.same(sorted(ints(T.nodes_with_level(l))), [x for x in m.nodes if m.level[x] == l], s, "nodes_with_level")
    ctx.same(ints(T.dim2ind), [next(x for x in m.leafdim if m.leafdim[x] == k) for k in range(d)], s, "dim2ind")
    return m
