"""Operands stay as they were: every operation, every ordered pair of operations on one object, and writing into results of arithmetic."""
import copy
import itertools

import numpy as np
import tensap

from .. import obs, ref, rng, tbt
from ..core import h64

ID = "P27"
BOUNDS = {
    "quick": "about 480 operations on objects of 20 classes (tensors in the five formats: tree-based on 7 configurations of order 1..4; trees, multi-index sets, grids, "
             "truncation, bases, functions, measures); every single operation with the operand and all its arguments compared before and after, every ordered "
             "pair of operations on the same object (the second compared with the same operation on a fresh object), and every arithmetic result overwritten in place",
    "thorough": "as quick with every triple of operations on tensors, trees and multi-index sets (the third compared with a fresh object) and 14 tree-based configurations",
}
ASSUMPTIONS = ["an object's value is what it represents (dense values, sets of indices, public attributes), not how it stores it",
               "operations documented to work in place (update_attributes, itranspose, add_child) are not operands-preserving and are excluded"]
g = ref.gen


def A(f):
    """operation whose result must not share memory with its operands"""
    f.arith = True
    return f


# -- tensors ---------------------------------------------------------------
def ft():
    return tensap.FullTensor(g((3, 2, 2), 1), 3, [3, 2, 2])


def full_ops():
    o = {}
    m = lambda: [g((2, 3), 1), g((3, 2), 2), g((2, 2), 3)]
    v = lambda: [g((3,), 1), g((2,), 2), g((2,), 3)]
    sq = lambda: [g((3, 3), 1), g((2, 2), 2), g((2, 2), 3)]
    y = lambda: tensap.FullTensor(g((3, 2, 2), 5), 3, [3, 2, 2])
    o["+"] = (lambda: [y()], A(lambda x, y: x + y))
    o["-"] = (lambda: [y()], A(lambda x, y: x - y))
    o["*"] = (lambda: [y()], A(lambda x, y: x * y))
    o["hadamard"] = (lambda: [y()], A(lambda x, y: x.hadamard_product(y)))
    o["/"] = (lambda: [], A(lambda x: x / 2.0))
    o["2*"] = (lambda: [], A(lambda x: 2.0 * x))
    o["*1"] = (lambda: [], A(lambda x: x * 1))
    o["**"] = (lambda: [], A(lambda x: x**2))
    o["neg"] = (lambda: [], A(lambda x: -x))
    o["+1"] = (lambda: [], A(lambda x: x + 1.0))
    o["1-"] = (lambda: [], A(lambda x: 1.0 - x))
    o["kron"] = (lambda: [y()], A(lambda x, y: x.kron(y)))
    o["cat"] = (lambda: [y(), [0, 1]], A(lambda x, y, d: x.cat(y, d)))
    o["==" ] = (lambda: [y()], lambda x, y: x == y)
    o["dot"] = (lambda: [y()], lambda x, y: x.dot(y))
    o["norm"] = (lambda: [], lambda x: x.norm())
    o["storage"] = (lambda: [], lambda x: (x.storage(), x.sparse_storage(), x.order, x.ndim, x.size))
    o["numpy"] = (lambda: [], lambda x: np.array(x.numpy()))
    o["sparse"] = (lambda: [], lambda x: x.sparse())
    o["tbt"] = (lambda: [], lambda x: x.tree_based_tensor())
    o["eval_at_indices"] = (lambda: [np.array([[0, 1, 1], [2, 0, 1]])], lambda x, i: x.eval_at_indices(i))
    o["eval_at_indices2"] = (lambda: [np.array([[0, 1], [1, 0]]), [1, 2]], lambda x, i, d: x.eval_at_indices(i, d))
    o["eval_diag"] = (lambda: [[1, 2]], lambda x, d: x.eval_diag(d))
    o["reshape"] = (lambda: [[6, 2]], lambda x, s: x.reshape(s))
    o["transpose"] = (lambda: [[2, 0, 1]], lambda x, s: x.transpose(s))
    o["squeeze"] = (lambda: [], lambda x: x.squeeze())
    o["sub_tensor"] = (lambda: [[0, 2], ":", [1]], lambda x, a, b, c: x.sub_tensor(a, b, c))
    o["getitem"] = (lambda: [], lambda x: x[0:2, :, 1])
    o["reduce_sum"] = (lambda: [[0, 2]], A(lambda x, d: x.reduce_sum(d)))
    o["reduce_mean"] = (lambda: [[1]], A(lambda x, d: x.reduce_mean(d)))
    o["orth"] = (lambda: [], lambda x: x.orth(1))
    o["dot_metric"] = (lambda: [y(), sq()], lambda x, y, M: x.dot_with_rank_one_metric(y, M))
    o["except_dim"] = (lambda: [y(), sq()], lambda x, y, M: x.tensordot_matrix_product_except_dim(y, M, 1))
    o["tensordot"] = (lambda: [y(), [0, 1], [0, 1]], lambda x, y, a, b: x.tensordot(y, a, b))
    o["tensordot_eval_diag"] = (lambda: [y(), [0], [0], [1], [1]], lambda x, y, a, b, c, d: x.tensordot_eval_diag(y, a, b, c, d))
    o["tmp"] = (lambda: [m()], lambda x, M: x.tensor_matrix_product(M))
    o["tmp_dims"] = (lambda: [[g((2, 2), 1)], [2]], lambda x, M, d: x.tensor_matrix_product(M, d))
    o["tmp_full"] = (lambda: [[tensap.FullTensor(g((2, 2), 1))], np.array([2])], lambda x, M, d: x.tensor_matrix_product(M, d))
    o["tvp"] = (lambda: [v()], lambda x, M: x.tensor_vector_product(M))
    o["tvp_dims"] = (lambda: [[g((2,), 1), g((3,), 1)], np.array([2, 0])], lambda x, M, d: x.tensor_vector_product(M, d))
    o["tmpd"] = (lambda: [m()[:1] + [g((2, 2), 2), g((2, 2), 3)]], lambda x, M: x.tensor_matrix_product_eval_diag(M))
    o["tdmp"] = (lambda: [v()], lambda x, M: x.tensor_diagonal_matrix_product(M))
    o["matricize"] = (lambda: [[2, 0]], lambda x, d: x.matricize(d))
    o["outer"] = (lambda: [y(), [0], [0]], lambda x, y, a, b: x.outer_product_eval_diag(y, a, b))
    o["pc"] = (lambda: [], lambda x: x.matricize([0]).principal_components(2))
    o["apc"] = (lambda: [[1, 2]], lambda x, a: x.alpha_principal_components(a, 1e-8))
    o["sv"] = (lambda: [], lambda x: x.singular_values())
    for n, f in trunc_ops(lambda: tensap.DimensionTree.linear(3)).items():
        o[n] = f
    return o


def trunc_ops(tree):
    o = {}
    o["hosvd"] = (lambda: [tensap.Truncator(1e-3)], lambda x, t: t.hosvd(x))
    o["hsvd"] = (lambda: [tensap.Truncator(1e-3, 2), tree()], lambda x, t, T: t.hsvd(x, T))
    o["ttsvd"] = (lambda: [tensap.Truncator(0, 2)], lambda x, t: t.ttsvd(x))
    o["hsvd_ranks"] = (lambda: [tensap.Truncator(1e-3, np.array([1, 2, 2, 2, 2])), tree()], lambda x, t, T: t.hsvd(x, T))
    return o


TBT = [((0, 1), (1, 1), 1), ((0, 1, 2), (1, 0, 1), 1), (((0, 1), 2), (1, 1, 1), 1), (((0, 1), 2), (0, 1, 1), 2), ((0, (1, (2, 3))), (1, 1, 0, 1), 1),
       (((0, 1), (2, 3)), (1, 1, 1, 1), 1), (((0, 2), 1), (1, 1, 1), 2)]
MORE = [((0, 1), (0, 0), 1), ((0, 1, 2), (0, 0, 0), 2), ((0, (1, 2)), (1, 1, 0), 1), (((0, 1, 2), 3), (1, 0, 1, 1), 1), (((1, 3), (0, 2)), (1, 1, 0, 0), 1),
        ((2, 0, (1, 3)), (1, 1, 1, 1), 2), ((0, (1, (2, (3, 4)))), (1, 1, 1, 1, 1), 1)]


def mk_tbt(i, tag=0):
    t, act, root = (TBT + MORE)[i]
    return tbt.make({"t": t, "num": "bfs", "act": list(act)}, p=4, s=2, rootrank=root, tag=tag)


def tbt_ops(i):
    t, act, root = (TBT + MORE)[i]
    d = len(act)
    o = {}
    y = lambda: mk_tbt(i, 3)
    X = mk_tbt(i)
    leaves = [int(n) for n in X.tree.dim2ind]
    sh = [2] * d
    m = lambda n=3: [g((n, s), k) for k, s in enumerate(sh)]
    v = lambda: [g((s,), k) for k, s in enumerate(sh)]
    sq = lambda: [g((s, s), k) + 2 * np.eye(s) for k, s in enumerate(sh)]
    for n, f in (("+", lambda x, y: x + y), ("-", lambda x, y: x - y), ("*", lambda x, y: x * y), ("hadamard", lambda x, y: x.hadamard_product(y)),
                 ("kron", lambda x, y: x.kron(y)), ("cat", lambda x, y: x.cat(y))):
        o[n] = (lambda: [y()], A(f))
    for n, f in (("2*", lambda x: 2.0 * x), ("*2", lambda x: x * 2.0), ("*1", lambda x: x * 1), ("/", lambda x: x / 2), ("neg", lambda x: -x)):
        o[n] = (lambda: [], A(f))
    if root > 1:
        o["matrix*"] = (lambda: [g((3, root), 3)], A(lambda x, M: x.__rmul__(M)))
    o["reduce_sum"] = (lambda: [[0]], A(lambda x, D: x.reduce_sum(D)))
    o["reduce_sum_all"] = (lambda: [], lambda x: x.reduce_sum())
    for n in ("storage", "sparse_storage", "sparse_leaves_storage", "is_admissible_rank", "full", "numpy", "norm", "gramians", "orth", "singular_values",
              "remove_unique_children", "ndim", "rank", "representation_rank", "eval_diag_below", "eval_diag_above", "squeeze"):
        def f(x, n=n):
            r = getattr(x, n)
            return r() if callable(r) else r
        o[n] = (lambda: [], f)
    o["attributes"] = (lambda: [], lambda x: (list(x.active_nodes), list(x.non_active_nodes), x.active_dims, x.non_active_dims, [x.is_active_dim(k) for k in range(d)]))
    o["admissible"] = (lambda: [np.array(X.ranks) + 1], lambda x, r: x.is_admissible_rank(r))
    o["copy"] = (lambda: [], lambda x: tensap.TreeBasedTensor(x.tensors, x.tree))
    if root == 1:
        o["change_root"] = (lambda: [], lambda x: x.change_root(leaves[0]))
    o["sub_tensor"] = (lambda: [[[0, 1]] + [[1]] * (d - 1)], lambda x, i: x.sub_tensor(*i))
    o["permutation_cost"] = (lambda: [], lambda x: [x.nodes_permutation_cost(a) for a in leaves])
    o["permute_leaves"] = (lambda: [np.array([1, 0] + list(range(2, d)))], lambda x, p: x.permute_leaves(p))
    o["permute_nodes"] = (lambda: [[leaves[0], leaves[-1]]], lambda x, p: x.permute_nodes(p))
    o["optimize"] = (lambda: [], lambda x: seeded(lambda: x.optimize_dimension_tree(1e-10, 2)))
    o["optimize_leaves"] = (lambda: [], lambda x: seeded(lambda: x.optimize_leaves_permutations(1e-10, 2)))
    o["inactivate"] = (lambda: [[leaves[0], leaves[1]]], lambda x, n: x.inactivate_nodes(n))
    o["activate"] = (lambda: [leaves], lambda x, n: x.activate_nodes(n))
    o["eval_at_indices"] = (lambda: [np.array([[0] * d, [1] * d])], lambda x, i: x.eval_at_indices(i))
    o["eval_at_indices_dims"] = (lambda: [np.array([[1], [0]]), [d - 1]], lambda x, i, D: x.eval_at_indices(i, D))
    o["eval_diag"] = (lambda: [], lambda x: x.eval_diag())
    o["tmp"] = (lambda: [m()], lambda x, M: x.tensor_matrix_product(M))
    o["tmp_dims"] = (lambda: [[g((3, 2), 0)], [1]], lambda x, M, D: x.tensor_matrix_product(M, D))
    o["tdmp"] = (lambda: [v()], lambda x, M: x.tensor_diagonal_matrix_product(M))
    o["tvp"] = (lambda: [v()], lambda x, M: x.tensor_vector_product(M))
    o["tvp_dims"] = (lambda: [v()[:1], [0]], lambda x, M, D: x.tensor_vector_product(M, D))
    o["tmpd"] = (lambda: [m()], lambda x, M: x.tensor_matrix_product_eval_diag(M))
    o["dot"] = (lambda: [y()], lambda x, y: x.dot(y))
    o["dot_metric"] = (lambda: [y(), sq()], lambda x, y, M: x.dot_with_rank_one_metric(y, M))
    o["gramian"] = (lambda: [], lambda x: x.gramians(leaves[0]))
    o["orth_at"] = (lambda: [], lambda x: [x.orth_at_node(int(n)) for n in x.active_nodes])
    o["gradient"] = (lambda: [m()], lambda x, M: [tensap.FunctionalTensor(x, M).parameter_gradient_eval(int(n)) for n in x.active_nodes])
    o["gradient_dmrg"] = (lambda: [m()], lambda x, M: tensap.FunctionalTensor(x, M).parameter_gradient_eval_dmrg(int(x.active_nodes[-1])))
    o["truncate"] = (lambda: [tensap.Truncator(1e-2)], lambda x, t: t.truncate(x))
    o["truncate_rank"] = (lambda: [tensap.Truncator(0, np.ones(X.tree.nb_nodes, dtype=int))], lambda x, t: t.truncate(x))
    o["complexity"] = (lambda: [], lambda x: [tensap.ModelSelection.complexity(x, None, c) for c in ("standard", "grassman", "stiefel")])
    return o


def seeded(f):
    cnt = [0]

    def choice(a, size=None, replace=True, p=None):
        a = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        ok = [i for i in range(len(a)) if p is None or p[i] > 0]
        cnt[0] += 1
        return a[ok[(cnt[0] * 5 + 2) % len(ok)]]
    with rng.patched(choice=choice):
        return f()


def can():
    return tensap.CanonicalTensor([g((3, 2), 1), g((2, 2), 2), g((2, 2), 3)], g((2,), 4))


def can_ops():
    o = {}
    y = lambda: tensap.CanonicalTensor([g((3, 2), 5), g((2, 2), 6), g((2, 2), 7)], g((2,), 8))
    m = lambda: [g((4, 3), 1), g((4, 2), 2), g((4, 2), 3)]
    v = lambda: [g((3,), 1), g((2,), 2), g((2,), 3)]
    o["+"] = (lambda: [y()], A(lambda x, y: x + y))
    o["-"] = (lambda: [y()], A(lambda x, y: x - y))
    o["*"] = (lambda: [], A(lambda x: x * 2.0))
    o["*1"] = (lambda: [], A(lambda x: x * 1))
    o["neg"] = (lambda: [], A(lambda x: -x))
    for n in ("orth", "full", "numpy", "norm", "storage", "sparse_storage", "representation_rank", "squeeze", "ndim"):
        def f(x, n=n):
            r = getattr(x, n)
            return r() if callable(r) else r
        o[n] = (lambda: [], f)
    o["tvp"] = (lambda: [v()], lambda x, M: x.tensor_vector_product(M))
    o["tvp_dims"] = (lambda: [v()[1:2], [1]], lambda x, M, D: x.tensor_vector_product(M, D))
    o["tmp"] = (lambda: [m()], lambda x, M: x.tensor_matrix_product(M))
    o["tmp_dims"] = (lambda: [m()[1:2], [1]], lambda x, M, D: x.tensor_matrix_product(M, D))
    o["tmpd"] = (lambda: [m()], lambda x, M: x.tensor_matrix_product_eval_diag(M))
    o["eval_diag_dims"] = (lambda: [[1, 2]], lambda x, D: x.eval_diag(D))
    o["dot"] = (lambda: [y()], lambda x, y: x.dot(y))
    o["gradient"] = (lambda: [m()], lambda x, M: [tensap.FunctionalTensor(x, M).parameter_gradient_eval(k) for k in range(1, 5)])
    o["reduce_sum"] = (lambda: [[0]], A(lambda x, D: x.reduce_sum(D)))
    o["tbt"] = (lambda: [tensap.DimensionTree.balanced(3)], lambda x, T: x.tree_based_tensor(T))
    o["tbt_act"] = (lambda: [tensap.DimensionTree.linear(3), np.array([True, True, False, True, True])], lambda x, T, a: x.tree_based_tensor(T, a))
    return o


def dia():
    return tensap.DiagonalTensor(g((3,), 1), 3)


def dia_ops():
    o = {}
    y = lambda: tensap.DiagonalTensor(g((3,), 2), 3)
    m = lambda: [g((2, 3), 1), g((2, 3), 2), g((2, 3), 3)]
    v = lambda: [g((3,), 1), g((3,), 2), g((3,), 3)]
    sq = lambda: [g((3, 3), 1), g((3, 3), 2), g((3, 3), 3)]
    o["+"] = (lambda: [y()], A(lambda x, y: x + y))
    o["-"] = (lambda: [y()], A(lambda x, y: x - y))
    o["*"] = (lambda: [y()], A(lambda x, y: x * y))
    o["neg"] = (lambda: [], A(lambda x: -x))
    o["cat"] = (lambda: [y()], A(lambda x, y: x.cat(y)))
    o["kron"] = (lambda: [y()], A(lambda x, y: x.kron(y)))
    for n in ("norm", "full", "numpy", "sparse", "storage", "sparse_storage", "orth", "eval_diag", "ndim", "tree_based_tensor"):
        def f(x, n=n):
            r = getattr(x, n)
            return r() if callable(r) else r
        o[n] = (lambda: [], f)
    o["tvp"] = (lambda: [v()], lambda x, M: x.tensor_vector_product(M))
    o["tmp"] = (lambda: [m()], lambda x, M: x.tensor_matrix_product(M))
    o["tmpd"] = (lambda: [m()], lambda x, M: x.tensor_matrix_product_eval_diag(M))
    o["tdmp"] = (lambda: [v()], lambda x, M: x.tensor_diagonal_matrix_product(M))
    o["tensordot"] = (lambda: [y(), [0], [1]], lambda x, y, a, b: x.tensordot(y, a, b))
    o["dot"] = (lambda: [y()], lambda x, y: x.dot(y))
    o["dot_metric"] = (lambda: [y(), sq()], lambda x, y, M: x.dot_with_rank_one_metric(y, M))
    o["except_dim"] = (lambda: [y(), sq()], lambda x, y, M: x.tensordot_matrix_product_except_dim(y, M, 1))
    o["eval_at_indices"] = (lambda: [np.array([[0, 0, 0], [1, 2, 0]])], lambda x, i: x.eval_at_indices(i))
    o["sub_tensor"] = (lambda: [[0, 1], [1], [2, 1]], lambda x, a, b, c: x.sub_tensor(a, b, c))
    o["transpose"] = (lambda: [[1, 2, 0]], lambda x, p: x.transpose(p))
    return o


def spa():
    I = tensap.MultiIndices(np.array([[0, 0, 1], [2, 1, 0], [1, 0, 1], [2, 0, 0]]))
    return tensap.SparseTensor(g((4,), 1), I, [3, 2, 2])


def spa_ops():
    o = {}
    y = lambda: tensap.SparseTensor(g((3,), 2), tensap.MultiIndices(np.array([[2, 1, 0], [0, 1, 1], [0, 0, 1]])), [3, 2, 2])
    m = lambda: [g((2, 3), 1), g((2, 2), 2), g((2, 2), 3)]
    v = lambda: [g((3,), 1), g((2,), 2), g((2,), 3)]
    sq = lambda: [g((3, 3), 1), g((2, 2), 2), g((2, 2), 3)]
    o["+"] = (lambda: [y()], A(lambda x, y: x + y))
    o["*"] = (lambda: [y()], A(lambda x, y: x * y))
    for n in ("norm", "full", "storage", "sparse_storage", "count_non_zero", "size", "ndim"):
        def f(x, n=n):
            r = getattr(x, n)
            return r() if callable(r) else r
        o[n] = (lambda: [], f)
    o["eval_at_indices"] = (lambda: [np.array([[0, 0, 1], [1, 1, 1]])], lambda x, i: x.eval_at_indices(i))
    o["tvp"] = (lambda: [v()], lambda x, M: x.tensor_vector_product(M))
    o["tvp_dims"] = (lambda: [v()[2:0:-1], np.array([2, 1])], lambda x, M, D: x.tensor_vector_product(M, D))
    o["tmp"] = (lambda: [m()], lambda x, M: x.tensor_matrix_product(M))
    o["tmpd"] = (lambda: [m()], lambda x, M: x.tensor_matrix_product_eval_diag(M))
    o["tdmp"] = (lambda: [v()], lambda x, M: x.tensor_diagonal_matrix_product(M))
    o["transpose"] = (lambda: [[2, 0, 1]], lambda x, p: x.transpose(p))
    o["reshape"] = (lambda: [[6, 2]], lambda x, p: x.reshape(p))
    o["dot"] = (lambda: [y()], lambda x, y: x.dot(y))
    o["dot_metric"] = (lambda: [y(), sq()], lambda x, y, M: x.dot_with_rank_one_metric(y, M))
    return o


# -- trees, sets of indices, grids ----------------------------------------------
def tree():
    return ref.build_tree(((0, 3), (1, (2, 4))))[0]


def tree_ops():
    o = {}
    o["permute"] = (lambda: [np.array([1, 0, 3, 4, 2])], lambda x, p: x.permute(p))
    o["permute_list"] = (lambda: [[1, 0, 3, 4, 2]], lambda x, p: x.permute(p))
    o["ipermute"] = (lambda: [np.array([1, 2, 3, 0, 4])], lambda x, p: x.ipermute(p))
    o["=="] = (lambda: [tree()], lambda x, y: (x == y, x != y))
    o["=="] = (lambda: [tree().permute([1, 0, 2, 3, 4])], lambda x, y: (x == y, y == x))
    o["queries"] = (lambda: [], lambda x: [(k, list(np.ravel(x.children(k))), x.parent(k), x.child_number(k), sorted(x.ascendants(k)), sorted(x.descendants(k)))
                                           for k in range(1, x.nb_nodes + 1)])
    o["attributes"] = (lambda: [], lambda x: ([sorted(v) for v in x.dims], list(x.level), list(x.is_leaf), x.arity, x.root, list(x.internal_nodes)))
    o["change_root"] = (lambda: [], lambda x: x.change_root(3))
    o["sub"] = (lambda: [], lambda x: [x.sub_dimension_tree(k) for k in range(1, x.nb_nodes + 1)])
    o["node_with_dims"] = (lambda: [[0, 3], np.array([4, 2])], lambda x, a, b: (x.node_with_dims(a), x.node_with_dims(b)))
    o["with_level"] = (lambda: [], lambda x: [list(x.nodes_with_level(l)) for l in range(4)])
    o["layout"] = (lambda: [], lambda x: sorted((int(k), tuple(np.ravel(v))) for k, v in dict(x.tree_layout()[0] if isinstance(x.tree_layout(), tuple) else x.tree_layout()).items()))
    o["update_dims"] = (lambda: [], lambda x: x.update_dims_from_leaves())
    return o


def mi():
    return tensap.MultiIndices(np.array([[1, 0, 2], [0, 0, 0], [0, 1, 0], [2, 1, 1], [0, 0, 1]]))


def mi_ops():
    o = {}
    y = lambda: tensap.MultiIndices(np.array([[0, 1, 0], [2, 1, 1], [3, 0, 0]]))
    one = lambda: tensap.MultiIndices(np.array([[0, 1, 0]]))
    o["+m"] = (lambda: [], A(lambda x: x + 2))
    o["m+"] = (lambda: [], A(lambda x: 2 + x))
    o["-m"] = (lambda: [], A(lambda x: x - 1))
    o["+v"] = (lambda: [np.array([1, 0, 2])], A(lambda x, v: x + v))
    o["+I"] = (lambda: [one()], A(lambda x, v: x + v))
    o["=="] = (lambda: [mi().remove_indices([0]).add_indices(one() + 7)], lambda x, y: x == y)
    o["==1"] = (lambda: [one()], lambda x, y: x == y)
    o["<="] = (lambda: [one()], lambda x, y: x <= y)
    for n in ("cardinal", "to_list", "ndim", "norm", "is_downward_closed", "get_maximal_indices", "get_margin", "get_reduced_margin", "sort"):
        def f(x, n=n):
            r = getattr(x, n)
            return r() if callable(r) else r
        o[n] = (lambda: [], f)
    o["product"] = (lambda: [y()], lambda x, y: x.product(y))
    o["norm_k"] = (lambda: [[0, 2]], lambda x, k: x.norm(1, k))
    o["weighted"] = (lambda: [np.array([1.0, 2.0, 3.0])], lambda x, w: x.weighted_norm(1, w))
    o["sort_norm"] = (lambda: [], lambda x: x.sort_by_norm(1, "descend"))
    o["sort_weighted"] = (lambda: [[1.0, 2.0, 3.0]], lambda x, w: x.sort_by_weighted_norm(2, w))
    o["sort_cols"] = (lambda: [[2, 0]], lambda x, c: x.sort(c, "descend"))
    o["add"] = (lambda: [y()], lambda x, y: x.add_indices(y))
    o["remove"] = (lambda: [y()], lambda x, y: x.remove_indices(y))
    o["remove_k"] = (lambda: [[0, 3]], lambda x, y: x.remove_indices(y))
    o["remove_dims"] = (lambda: [[1]], lambda x, y: x.remove_dims(y))
    o["intersect"] = (lambda: [y()], lambda x, y: x.intersect_indices(y))
    o["keep"] = (lambda: [[0, 2]], lambda x, y: x.keep_indices(y))
    o["keep_dims"] = (lambda: [[2, 0]], lambda x, y: x.keep_dims(y))
    o["get"] = (lambda: [[1, 2]], lambda x, y: x.get_indices(y))
    o["envelope"] = (lambda: [np.array([1.0, 4.0, 2.0, 0.5, 3.0])], lambda x, u: x.envelope(u))
    o["product_set"] = (lambda: [[[0, 1], [2, 3]]], lambda x, L: tensap.MultiIndices.product_set(L))
    o["bounded_by"] = (lambda: [np.array([1, 2]), [0, 1]], lambda x, a, b: tensap.MultiIndices.bounded_by(a))
    o["whc"] = (lambda: [np.array([1.0, 2.0])], lambda x, w: tensap.MultiIndices.weighted_hyperbolic_cross_set(2, 3, w))
    o["wbn"] = (lambda: [np.array([1.0, 2.0])], lambda x, w: tensap.MultiIndices.with_bounded_weighted_norm(2, 1, 3, w))
    o["random"] = (lambda: [], lambda x: x.array.shape)
    return o


def grid():
    return tensap.FullTensorGrid([g((3, 1), 1), g((2, 1), 2), g((2, 1), 3)])


def grid_ops(sparse=False):
    o = {}
    for n in ("ndim", "shape", "array", "size"):
        def f(x, n=n):
            r = getattr(x, n)
            return r() if callable(r) else r
        o[n] = (lambda: [], f)
    if not sparse:
        o["multi_indices"] = (lambda: [], lambda x: x.multi_indices())
        o["eval_at_indices"] = (lambda: [np.array([[0, 1, 1], [2, 0, 0]])], lambda x, i: x.eval_at_indices(i))
    o["evalfun"] = (lambda: [tensap.UserDefinedFunction(lambda x: np.sum(x), 3)], lambda x, f: f.eval_on_tensor_grid(x))
    o["constructor"] = (lambda: [[g((3, 1), 1), g((2, 1), 2), g((2, 1), 3)]], lambda x, L: tensap.FullTensorGrid(L).array())
    o["constructor_1d"] = (lambda: [[g((3,), 1), g((2,), 2)]], lambda x, L: tensap.FullTensorGrid(L).array())
    o["constructor_sparse"] = (lambda: [[g((3, 1), 1), g((2, 1), 2)], tensap.MultiIndices(np.array([[0, 0], [2, 1]]))], lambda x, L, I: tensap.SparseTensorGrid(L, I).array())
    return o


def sgrid():
    return tensap.SparseTensorGrid([g((3, 1), 1), g((2, 1), 2), g((2, 1), 3)], tensap.MultiIndices(np.array([[0, 0, 1], [2, 1, 0]])))


# -- bases, functions, measures ------------------------------------------------------
def legendre():
    return tensap.PolynomialFunctionalBasis(tensap.LegendrePolynomials(), range(4))


def basis_ops(kind):
    o = {}
    pts = lambda: np.array([[-0.5], [0.1], [0.9], [0.3]])
    M = lambda: tensap.UniformRandomVariable(-1, 1)
    for n in ("cardinal", "ndim", "domain", "mean", "one", "gram_matrix", "interpolation_points", "orthonormalize", "storage", "random_variable", "gradient", "hessian"):
        def f(x, n=n):
            r = getattr(x, n)
            return r() if callable(r) else r
        o[n] = (lambda: [], f)
    o["eval"] = (lambda: [pts()], lambda x, p: x.eval(p))
    o["eval_derivative"] = (lambda: [pts()], lambda x, p: [x.eval_derivative(k, p) for k in (1, 2)])
    o["derivative"] = (lambda: [], lambda x: x.derivative(1))
    o["kron"] = (lambda: [tensap.PolynomialFunctionalBasis(tensap.LegendrePolynomials(), range(2))], lambda x, y: x.kron(y).eval(pts()))
    o["gram_measure"] = (lambda: [M()], lambda x, m: x.gram_matrix(m))
    o["mean_measure"] = (lambda: [M()], lambda x, m: x.mean(m))
    o["magic"] = (lambda: [np.linspace(-1, 1, 9).reshape(-1, 1)], lambda x, p: x.magic_points(p))
    o["magic_J"] = (lambda: [np.linspace(-1, 1, 9).reshape(-1, 1), [3, 1, 0, 2]], lambda x, p, J: x.magic_points(p, J))
    o["interpolate"] = (lambda: [np.array([1.0, -1.0, 2.0, 0.5]), pts()], lambda x, y, p: x.interpolate(y, p).eval(pts()))
    o["interpolate_f"] = (lambda: [pts()], lambda x, p: x.interpolate(lambda t: np.sin(t), p).eval(pts()))
    o["projection"] = (lambda: [M().gauss_integration_rule(6)], lambda x, G: x.projection(lambda t: np.sin(t), G).eval(pts()))
    o["expansion"] = (lambda: [np.array([1.0, -1.0, 2.0, 0.5])], lambda x, c: tensap.FunctionalBasisArray(c, x, 1).eval(pts()))
    return o


def fbases():
    return tensap.FunctionalBases([legendre(), tensap.PolynomialFunctionalBasis(tensap.HermitePolynomials(), range(3)), legendre()])


def fbases_ops():
    o = {}
    X = lambda: np.array([[-0.5, 0.3, 0.1], [0.1, 1.0, 0.5], [0.9, -0.2, -0.3]])
    for n in ("length", "cardinals", "ndim", "domain", "orthonormalize", "adaptation_path", "one", "gram_matrices", "storage", "mean", "get_random_vector", "interpolation_points"):
        def f(x, n=n):
            r = getattr(x, n)
            return r() if callable(r) else r
        o[n] = (lambda: [], f)
    o["eval"] = (lambda: [X()], lambda x, p: x.eval(p))
    o["eval_list"] = (lambda: [[X()[:, [0]], X()[:, [1]], X()[:, [2]]]], lambda x, p: x.eval(p))
    o["eval_dims"] = (lambda: [X()[:, :2], [2, 0]], lambda x, p, D: x.eval(p, D))
    o["eval_derivative"] = (lambda: [np.array([1, 0, 2]), X()], lambda x, n, p: x.eval_derivative(n, p))
    o["derivative"] = (lambda: [[1, 0, 2]], lambda x, n: x.derivative(n))
    o["kron"] = (lambda: [fbases()], lambda x, y: [b.eval(X()[:, [0]]) for b in x.kron(y).bases])
    o["remove"] = (lambda: [[1]], lambda x, i: x.remove_bases(i))
    o["keep"] = (lambda: [[2, 0]], lambda x, i: x.keep_bases(i))
    o["transpose"] = (lambda: [[2, 0, 1]], lambda x, i: x.transpose(i))
    o["mean_dims"] = (lambda: [np.array([2, 1])], lambda x, i: x.mean(i))
    o["gram_dims"] = (lambda: [[1]], lambda x, i: x.gram_matrices(i))
    o["magic"] = (lambda: [[np.linspace(-1, 1, 9).reshape(-1, 1)] * 3], lambda x, p: x.magic_points(p))
    o["full_basis"] = (lambda: [], lambda x: tensap.FullTensorProductFunctionalBasis(x).keep_bases([0]))
    return o


def sparse_basis():
    return tensap.SparseTensorProductFunctionalBasis(fbases(), tensap.MultiIndices(np.array([[0, 0, 0], [1, 0, 0], [0, 2, 1], [3, 0, 1]])))


def full_basis():
    return tensap.FullTensorProductFunctionalBasis(fbases())


def tp_ops(sparse):
    o = {}
    X = lambda: np.array([[-0.5, 0.3, 0.1], [0.1, 1.0, 0.5], [0.9, -0.2, -0.3]])
    for n in ("length", "cardinal", "ndim", "domain", "mean", "gram_matrix", "orthonormalize", "adaptation_path"):
        def f(x, n=n):
            r = getattr(x, n)
            return r() if callable(r) else r
        o[n] = (lambda: [], f)
    o["eval"] = (lambda: [X()], lambda x, p: x.eval(p))
    o["transpose"] = (lambda: [[2, 0, 1]], lambda x, p: x.transpose(p))
    o["remove"] = (lambda: [[1]], lambda x, p: x.remove_bases(p))
    o["keep"] = (lambda: [[2, 0]], lambda x, p: x.keep_bases(p))
    o["conditional"] = (lambda: [[0, 2]], lambda x, p: x.conditional_expectation(p))
    o["conditional_mask"] = (lambda: [np.array([True, False, True])], lambda x, p: x.conditional_expectation(p))
    if sparse:
        o["remove_mapping"] = (lambda: [[0, 2]], lambda x, p: x.remove_mapping(p))
        o["keep_mapping"] = (lambda: [[0, 2]], lambda x, p: x.keep_mapping(p))
        o["eval_derivative"] = (lambda: [[1, 0, 1], X()], lambda x, n, p: x.eval_derivative(n, p))
        o["derivative"] = (lambda: [np.array([1, 0, 1])], lambda x, n: x.derivative(n))
        o["evals"] = (lambda: [fbases().eval(X())], lambda x, H: x.eval_with_functional_bases_evals(H))
    else:
        o["gram_matrices"] = (lambda: [[0, 2]], lambda x, D: x.gram_matrices(D))
    return o


def expansion(shape=1):
    return tensap.FunctionalBasisArray(g([4] + ([] if shape == 1 else list(shape)), 3), sparse_basis(), shape)


def fba_ops(shape=1):
    o = {}
    X = lambda: np.array([[-0.5, 0.3, 0.1], [0.1, 1.0, 0.5], [0.9, -0.2, -0.3]])
    y = lambda: tensap.FunctionalBasisArray(g([4] + ([] if shape == 1 else list(shape)), 5), sparse_basis(), shape)
    o["+"] = (lambda: [y()], A(lambda x, y: x + y))
    o["-"] = (lambda: [y()], A(lambda x, y: x - y))
    o["*"] = (lambda: [], A(lambda x: x * 2.0))
    o["neg"] = (lambda: [], A(lambda x: -x))
    for n in ("mean", "expectation", "variance", "std", "norm", "norm_expectation", "get_random_vector", "storage", "sparse_storage", "sub_functional_basis", "get_coefficients"):
        def f(x, n=n):
            r = getattr(x, n)
            return r() if callable(r) else r
        o[n] = (lambda: [], f)
    o["dot"] = (lambda: [y()], lambda x, y: x.dot(y))
    o["dotexp"] = (lambda: [y()], lambda x, y: x.dot_product_expectation(y))
    o["dotexp_dims"] = (lambda: [y(), [0]], lambda x, y, D: x.dot_product_expectation(y, D))
    o["conditional"] = (lambda: [[2, 0]], lambda x, D: x.conditional_expectation(D))
    o["var_conditional"] = (lambda: [[0]], lambda x, D: x.variance_conditional_expectation(D))
    o["eval"] = (lambda: [X()], lambda x, p: x.eval(p))
    o["call"] = (lambda: [X()], lambda x, p: x(p))
    o["evals"] = (lambda: [sparse_basis().eval(X())], lambda x, H: x.eval_with_bases_evals(H))
    o["eval_derivative"] = (lambda: [[1, 0, 1], X()], lambda x, n, p: x.eval_derivative(n, p))
    o["derivative"] = (lambda: [[1, 0, 0]], lambda x, n: x.derivative(n))
    o["gradient"] = (lambda: [X()], lambda x, p: x.eval_gradient(p))
    o["projection"] = (lambda: [sparse_basis()], lambda x, b: x.projection(b))
    return o


def ftensor(i):
    if i == "full":
        T = tensap.FullTensor(g((4, 3, 4), 1), 3, [4, 3, 4])
    elif i == "can":
        T = tensap.CanonicalTensor([g((4, 2), 1), g((3, 2), 2), g((4, 2), 3)], g((2,), 4))
    else:
        T = tbt.make({"t": ((0, 1), 2), "num": "bfs", "act": [1, 0, 1]}, p=4, s=(4, 3, 4))
    return tensap.FunctionalTensor(T, fbases())


def ftensor_ops(i):
    o = {}
    X = lambda: np.array([[-0.5, 0.3, 0.1], [0.1, 1.0, 0.5], [0.9, -0.2, -0.3]])

    def y():
        f = ftensor(i)
        f.tensor = f.tensor * 0.5
        return f
    o["+"] = (lambda: [y()], A(lambda x, y: x + y))
    if i == "tbt":
        o["*"] = (lambda: [y()], A(lambda x, y: x * y))
    o["*2"] = (lambda: [], A(lambda x: x * 2.0))
    for n in ("mean", "expectation", "variance", "std", "norm", "get_random_vector", "storage", "is_random"):
        def f(x, n=n):
            r = getattr(x, n)
            return r() if callable(r) else r
        o[n] = (lambda: [], f)
    o["dotexp"] = (lambda: [y()], lambda x, y: x.dot_product_expectation(y))
    o["conditional"] = (lambda: [[0, 2]], lambda x, D: x.conditional_expectation(D))
    o["var_conditional"] = (lambda: [[0]], lambda x, D: x.variance_conditional_expectation(D))
    o["eval"] = (lambda: [X()], lambda x, p: x.eval(p))
    if i != "tbt":
        o["eval_dims"] = (lambda: [X()[:, :1], [0]], lambda x, p, D: x.eval(p, D))
    o["evals"] = (lambda: [fbases().eval(X())], lambda x, H: x.eval_with_bases_evals(H))
    o["eval_derivative"] = (lambda: [np.array([1, 0, 1]), X()], lambda x, n, p: x.eval_derivative(n, p))
    o["derivative"] = (lambda: [[1, 0, 0]], lambda x, n: x.derivative(n))
    o["gradient"] = (lambda: [X()], lambda x, p: x.eval_gradient(p))
    o["on_grid"] = (lambda: [[X()[:, [0]], X()[:, [1]], X()[:2, [2]]]], lambda x, p: x.eval_on_grid(p))
    o["tensor_grid"] = (lambda: [tensap.FullTensorGrid([X()[:, [0]], X()[:, [1]], X()[:2, [2]]])], lambda x, p: x.eval_on_tensor_grid(p))
    if i != "full":
        o["pgradient"] = (lambda: [X()], lambda x, p: x.parameter_gradient_eval(1, p))
    return o


def rv():
    return tensap.RandomVector([tensap.UniformRandomVariable(-1, 2), tensap.NormalRandomVariable(1, 2), tensap.DiscreteRandomVariable([0.0, 1.0, 3.0], [0.2, 0.3, 0.5])])


def rv_ops():
    o = {}
    X = lambda: np.array([[-0.5, 0.3, 1.0], [0.1, 1.0, 0.0]])
    for n in ("ndim", "size", "support", "truncated_support", "mean", "std", "variance", "orthonormal_polynomials"):
        def f(x, n=n):
            r = getattr(x, n)
            return r() if callable(r) else r
        o[n] = (lambda: [], f)
    o["marginal"] = (lambda: [[2, 0]], lambda x, i: x.marginal(i))
    o["transpose"] = (lambda: [[2, 0, 1]], lambda x, i: x.transpose(i))
    o["pdf"] = (lambda: [X()[:, :2]], lambda x, p: x.marginal([0, 1]).pdf(p))
    o["cdf"] = (lambda: [X()], lambda x, p: x.cdf(p))
    o["transfer"] = (lambda: [tensap.RandomVector(tensap.UniformRandomVariable(0, 1), 2), X()[:, :2]], lambda x, Y, p: x.marginal([0, 1]).transfer(Y, p))
    o["grid"] = (lambda: [], lambda x: x.marginal([0, 1]).iso_probabilistic_grid(3))
    return o


def uni(i):
    return [lambda: tensap.UniformRandomVariable(-1, 2), lambda: tensap.NormalRandomVariable(1, 2), lambda: tensap.DiscreteRandomVariable([0.0, 1.0, 3.0], [0.2, 0.3, 0.5])][i]()


def uni_ops(i):
    o = {}
    X = lambda: np.array([0.0, 1.0, 0.5])
    for n in ("ndim", "support", "truncated_support", "mean", "std", "variance", "orthonormal_polynomials", "get_parameters", "random_variable_statistics",
              "get_standard_random_variable", "min", "max", "number_of_parameters"):
        def f(x, n=n):
            r = getattr(x, n)
            return r() if callable(r) else r
        o[n] = (lambda: [], f)
    o["cdf"] = (lambda: [X()], lambda x, p: x.cdf(p))
    o["icdf"] = (lambda: [np.array([0.1, 0.7])], lambda x, p: x.icdf(p))
    if i < 2:
        o["pdf"] = (lambda: [X()], lambda x, p: x.pdf(p))
        o["shift"] = (lambda: [], lambda x: x.shift(1.0, 2.0))
        o["transfer"] = (lambda: [tensap.NormalRandomVariable(), X()], lambda x, Y, p: x.transfer(Y, p))
    o["gauss"] = (lambda: [], lambda x: x.gauss_integration_rule(3))
    o["moment"] = (lambda: [[1, 2]], lambda x, k: x.moment(k))
    o["discretize"] = (lambda: [], lambda x: x.discretize(3))
    return o


def tensorizer():
    return tensap.Tensorizer(2, 3, 2)


def tensorizer_ops():
    o = {}
    X = lambda: np.array([[0.3, 0.8], [0.6, 0.1]])
    o["map"] = (lambda: [X()], lambda x, p: x.map(p))
    o["inverse"] = (lambda: [X()], lambda x, p: x.inverse_map(x.map(p)))
    o["tensorize"] = (lambda: [X()], lambda x, p: x.tensorize(lambda t: t[:, 0] + t[:, 1] ** 2).eval(x.map(p)))
    o["bases"] = (lambda: [X()], lambda x, p: x.tensorized_function_functional_bases(1).eval(x.map(p)))
    return o


CLASSES = {"full": (ft, full_ops), "canonical": (can, can_ops), "diagonal": (dia, dia_ops), "sparse": (spa, spa_ops), "tree": (tree, tree_ops), "indices": (mi, mi_ops),
           "grid": (grid, grid_ops), "sparse grid": (sgrid, lambda: grid_ops(True)), "basis": (legendre, lambda: basis_ops("poly")), "bases": (fbases, fbases_ops),
           "sparse basis": (sparse_basis, lambda: tp_ops(True)), "full basis": (full_basis, lambda: tp_ops(False)),
           "expansion": (expansion, fba_ops), "vector expansion": (lambda: expansion([2]), lambda: fba_ops([2])),
           "random vector": (rv, rv_ops), "tensorizer": (tensorizer, tensorizer_ops)}
for _i in range(len(TBT + MORE)):
    CLASSES["tbt%d" % _i] = ((lambda i: lambda: mk_tbt(i))(_i), (lambda i: lambda: tbt_ops(i))(_i))
for _i in ("full", "can", "tbt"):
    CLASSES["function " + _i] = ((lambda i: lambda: ftensor(i))(_i), (lambda i: lambda: ftensor_ops(i))(_i))
for _i in range(3):
    CLASSES["variable%d" % _i] = ((lambda i: lambda: uni(i))(_i), (lambda i: lambda: uni_ops(i))(_i))


def cases(tier):
    for c, (_, ops) in CLASSES.items():
        if tier == "quick" and c.startswith("tbt") and int(c[3:]) >= len(TBT):
            continue
        for n in ops():
            yield {"c": c, "op": n}
            if tier != "quick" and c in ("full", "canonical", "diagonal", "sparse", "tree", "indices", "tbt1", "tbt2", "tbt3"):
                yield {"c": c, "op": n, "triples": 1}


def call(fn, x, args):
    np.random.seed(1)           # operations that draw points get the same ones
    try:
        return fn(x, *args)
    except Exception as e:  # noqa
        return "raises " + type(e).__name__


def arrays(o, seen, depth=0):
    """writable arrays reachable from a result"""
    if id(o) in seen or depth > 6:
        return
    seen.add(id(o))
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            for v in o.ravel():
                yield from arrays(v, seen, depth + 1)
        elif o.flags.writeable:
            yield o
    elif isinstance(o, (list, tuple)):
        for v in o:
            yield from arrays(v, seen, depth + 1)
    elif isinstance(o, dict):
        for v in o.values():
            yield from arrays(v, seen, depth + 1)
    elif hasattr(o, "__dict__") and not isinstance(o, (type,) + obs.FUNCTIONS):
        if isinstance(o, (tensap.FullTensor, tensap.SparseTensor, tensap.DiagonalTensor, tensap.CanonicalTensor, tensap.TreeBasedTensor,
                          tensap.MultiIndices, tensap.FunctionalTensor, tensap.FunctionalBasisArray)):
            for k in ("tensors", "data", "indices", "array", "space", "core", "tensor", "_data"):
                if k in vars(o):
                    yield from arrays(vars(o)[k], seen, depth + 1)


def run(case, ctx):
    mk, table = CLASSES[case["c"]]
    ops = table()
    margs, fn = ops[case["op"]]
    cls = case["c"].rstrip("0123456789")
    sig = cls + "/" + case["op"]
    if case.get("triples"):
        return triples(case, ctx, mk, ops)
    x, args = mk(), margs()
    before = [obs.obs(x)] + [obs.obs(a) for a in args]
    r = call(fn, x, args)
    ctx.transitions += 1
    with ctx.op(case["op"], sig=sig):
        for i, (b, o) in enumerate(zip(before, [x] + args)):
            ctx.comparisons += 1
            if not obs.same_obs(obs.obs(o), b):
                ctx.fail(sig + (":operand" if i == 0 else ":argument"), f"{case['c']}: {case['op']} changed {'its operand' if i == 0 else 'argument %d' % i}",
                         before=str(b)[:300], after=str(obs.obs(o))[:300])
    ctx.state(case["c"], case["op"])
    ctx.outcomes.add(h64(case["c"], case["op"], str(obs.obs(r))[:500]))
    if getattr(fn, "arith", False) and not isinstance(r, str):
        x, args = mk(), margs()
        before = [obs.obs(x)] + [obs.obs(a) for a in args]
        with ctx.op("overwrite the result of " + case["op"], sig=sig):
            r = fn(x, *args)
            for a in list(arrays(r, set())):
                if a.dtype.kind in "fiu" and a.size:
                    a += 1
            for i, (b, o) in enumerate(zip(before, [x] + args)):
                ctx.comparisons += 1
                if not obs.same_obs(obs.obs(o), b):
                    ctx.fail(sig + ":shared", f"{case['c']}: writing into the result of {case['op']} changed {'its operand' if i == 0 else 'argument %d' % i}")
        ctx.trace()
    for n2, (margs2, fn2) in ops.items():
        want = fresh(case["c"], mk, n2, margs2, fn2)
        x = mk()
        with ctx.op(case["op"] + " then " + n2, sig=sig):
            call(fn, x, margs())
            got = obs.obs(call(fn2, x, margs2()))
            ctx.comparisons += 1
            if not obs.same_obs(got, want, 1e-7):
                ctx.fail(sig + ":later", f"{case['c']}: {n2} after {case['op']} on the same object differs from {n2} alone", got=str(got)[:400], want=str(want)[:400])
        ctx.state(case["c"], case["op"], n2)
        ctx.trace(2)


FRESH = {}


def fresh(c, mk, n, margs, fn):
    if (c, n) not in FRESH:
        FRESH[c, n] = obs.obs(call(fn, mk(), margs()))
    return FRESH[c, n]


def triples(case, ctx, mk, ops):
    margs, fn = ops[case["op"]]
    for n2, (m2, f2) in ops.items():
        for n3, (m3, f3) in ops.items():
            want = fresh(case["c"], mk, n3, m3, f3)
            x = mk()
            with ctx.op(f"{case['op']} then {n2} then {n3}", sig=case["c"] + "/triple"):
                call(fn, x, margs())
                call(f2, x, m2())
                got = obs.obs(call(f3, x, m3()))
                ctx.comparisons += 1
                if not obs.same_obs(got, want, 1e-7):
                    ctx.fail(case["c"] + "/triple", f"{n3} after {case['op']} and {n2} differs from {n3} alone")
            ctx.state(case["c"], case["op"], n2, n3)
        ctx.trace(3)
