"""Sensitivities to the parameters of a node (or of a node merged with its parent)."""
import numpy as np
import tensap

from .. import ref, tbt
from ..trees import M

ID = "P06"
BOUNDS = {
    "quick": "all labelled trees with 2..4 leaves (3 node numberings for 2..3), all active-leaf patterns, rank patterns over "
             "{1,2,3}, root rank 1..2, 1 and 3 evaluation points; every active node and every (node, parent) pair; the "
             "derivative is contracted with every element of the canonical basis of the parameter space (orders 2..3, complete by "
             "linearity) or with the current and one generic core (order 4); canonical tensors of order 2..4 and rank 1..3, "
             "all parameters; the diagonals of tensors with equal mode sizes 1..3 (orders 2..3) and functions given by bases and points",
    "thorough": "as quick, order 4 with complete bases, all rank and shape patterns, 3 numberings, order 5 on one activity "
                "pattern per tree",
}


def cases(tier):
    q = tier == "quick"
    for c in tbt.active_cases((2, 3), ("bfs", "pre", "post")):
        yield dict(c, kind="tbt", full=1, pats=[[1, 4, 1], [4, 1, 1], [2, 4, 2]])
    for c in tbt.active_cases((4,), ("bfs",) if q else ("bfs", "post")):
        yield dict(c, kind="tbt", full=0 if q else 1, pats=[[4, 4, 1], [1, 0, 2]] if q else
                   [[p, s, rr] for p in (1, 4, 5) for s in (1, 4) for rr in (1, 2)])
    if not q:
        for t in ref.all_trees(range(5)):
            for act in ([1] * 5, [0, 1, 1, 0, 1]):
                yield {"t": t, "num": "bfs", "act": act, "kind": "tbt", "full": 0, "pats": [[1, 0, 1]]}
    for c in tbt.active_cases((2, 3), ("bfs", "post")) if q else tbt.active_cases((2, 3, 4), ("bfs", "post")):
        yield dict(c, kind="diag")
    for d in (2, 3, 4):
        for r in (1, 2, 3):
            yield {"kind": "cpdiag", "d": d, "r": r}
            for s in range(len(tbt.SHAPES)):
                yield {"kind": "cp", "d": d, "r": r, "s": s}


def run(case, ctx):
    globals()["run_" + case["kind"]](case, ctx)


def evals(y, hs):
    """sum_i y[i1..id, out] prod_k hs[k][n, ik] -> (N, out...)"""
    d = len(hs)
    letters = "abcdefgh"[:d]
    return np.einsum(",".join("n" + c for c in letters) + "," + letters + "...->n...", *hs, y)


def contract(g, c):
    """g: (N, *c.shape, out...) with c -> (N, out...)"""
    g = np.asarray(g)
    if g.shape[1:1 + c.ndim] != c.shape:
        raise AssertionError("derivative has shape %s for parameters of shape %s" % (g.shape, c.shape))
    return np.tensordot(g, c, (range(1, 1 + c.ndim), range(c.ndim)))


def candidates(c, full, tag):
    yield "current", np.array(c)
    yield "generic", ref.gen(c.shape, tag)
    if full:
        for k in range(c.size):
            e = np.zeros(c.size)
            e[k] = 1
            yield "e%d" % k, e.reshape(c.shape)


def replaced(x, cores):
    ts = list(x.tensors)
    for n, c in cores.items():
        ts[n - 1] = tensap.FullTensor(c, c.ndim, list(c.shape))
    return ref.tbt_dense(tensap.TreeBasedTensor(ts, x.tree))


def run_tbt(case, ctx):
    d = len(case["act"])
    for p, s, rr in case["pats"]:
        x = tbt.make(case, p, s, rr)
        m = M.of(x.tree)
        y = ref.tbt_dense(x)
        for N in (1, 3):
            hs = [ref.gen((N, y.shape[k]), 5 + k) for k in range(d)]
            want = evals(y, hs)
            f = tensap.FunctionalTensor(x, list(hs))
            with ctx.step("ranks#%s shape#%s root-rank %s N=%s" % (p, s, rr, N)):
                ctx.trace()
                with ctx.op("eval", pure=[x, hs]):
                    ctx.close(ref.dense(f.eval(None)).reshape(want.shape), want, "eval")
                for n in m.nodes:
                    if not x.is_active_node[n - 1]:
                        continue
                    ctx.state(m.key(), list(x.is_active_node), list(x.ranks), n)
                    core = np.asarray(x.tensors[n - 1].data)
                    # a root core without output axis is linear without output
                    with ctx.op("parameter_gradient_eval", n, pure=[x, hs]):
                        g = f.parameter_gradient_eval(n)
                        gd = ref.dense(g)
                        ctx.same(list(g.shape), list(gd.shape), "parameter_gradient_eval", "advertised shape")
                        for name, c in candidates(core, case["full"] and N > 1, 9):
                            w = evals(replaced(x, {n: c}), hs)
                            if n == m.root and rr > 1:
                                v = np.tensordot(gd, c, (range(1, c.ndim), range(c.ndim - 1)))
                            else:
                                v = contract(gd, c)
                            ctx.close(v, w, "parameter_gradient_eval", msg=name)
                    if n == m.root:
                        continue
                    par = m.parent[n]
                    pc = np.asarray(x.tensors[par - 1].data)
                    pos = m.children[par].index(n)
                    outer = par == m.root and rr > 1

                    def merged(a, b):
                        return np.tensordot(a, b, (a.ndim - 1, pos))
                    with ctx.op("parameter_gradient_eval_dmrg", n, pure=[x, hs]):
                        g = ref.dense(f.parameter_gradient_eval_dmrg(n))
                        ga, gg = f.parameter_gradient_eval_dmrg(n, dmrg_type="dmrg_low_rank")
                        ga, gg = ref.dense(ga), ref.dense(gg)
                        cand = [("current", core, pc), ("generic", ref.gen(core.shape, 9), ref.gen(pc.shape, 8))]
                        for name, a, b in cand:
                            w = evals(replaced(x, {n: a, par: b}), hs)
                            c = merged(a, b)
                            if outer:
                                v = np.tensordot(g, c, (range(1, c.ndim), range(c.ndim - 1)))
                            else:
                                v = contract(g, c)
                            ctx.close(v, w, "parameter_gradient_eval_dmrg", msg=name)
                            # separated form: contraction with alpha's core, then with the parent's
                            na = a.ndim - 1
                            ctx.same(list(ga.shape), [N] + list(a.shape[:-1]), "dmrg_low_rank", "shape of the node part")
                            va = np.tensordot(ga, a, (range(1, 1 + na), range(na)))          # N, rank
                            b0 = np.moveaxis(b, pos, 0)
                            nb = b0.ndim - 1 - (1 if outer else 0)
                            ctx.same(list(gg.shape[:1 + nb]), [N] + list(b0.shape[1:1 + nb]), "dmrg_low_rank", "shape of the parent part")
                            if gg.ndim == 1 + nb:
                                v = np.stack([np.tensordot(gg[i], np.tensordot(va[i], b0, (0, 0)), (range(nb), range(nb)))
                                              for i in range(N)])
                                ctx.close(v, w, "dmrg_low_rank", msg=name)
                            else:
                                v = np.stack([np.tensordot(np.tensordot(va[i], b0, (0, 0)), gg[i], (range(nb), range(nb)))
                                              for i in range(N)])
                                ctx.close(v, w, "dmrg_low_rank", msg=name)


def run_cp(case, ctx):
    d, r = case["d"], case["r"]
    shape = tbt.SHAPES[case["s"]][:d]
    space = [ref.gen((n, r), k) for k, n in enumerate(shape)]
    core = ref.gen((r,), 7)
    x = tensap.CanonicalTensor([a.copy() for a in space], core.copy())
    y = ref.cp_dense(space, core)
    for N in (1, 3, shape[0]):
        hs = [ref.gen((N, n), 5 + k) for k, n in enumerate(shape)]
        f = tensap.FunctionalTensor(x, list(hs))
        want = evals(y, hs)
        ctx.trace()
        with ctx.op("cp-eval", pure=[x, hs]):
            ctx.close(ref.dense(f.eval(None)).reshape(want.shape), want, "cp-eval")
        for mu in range(1, d + 2):
            ctx.state("cp", shape, r, mu, N)
            with ctx.op("cp-parameter_gradient_eval", mu, pure=[x, hs], sig="cp-gradient"):
                g = ref.dense(f.parameter_gradient_eval(mu))
                if mu == d + 1:
                    for name, c in candidates(core, True, 9):
                        ctx.close(contract(g, c), evals(ref.cp_dense(space, c), hs), "cp-gradient", msg=name)
                else:
                    # parameters of a factor: the factor multiplied by the weights of the terms
                    cur = space[mu - 1] * core
                    for name, c in candidates(cur, True, 9):
                        sp = list(space)
                        sp[mu - 1] = c
                        ctx.close(contract(g, c.T), evals(ref.cp_dense(sp, np.ones(r)), hs), "cp-gradient", msg=name)


def legendre(n, k):
    mu = tensap.UniformRandomVariable(-1, 1 + k)
    return tensap.PolynomialFunctionalBasis(mu.orthonormal_polynomials(), range(n))


def run_diag(case, ctx):
    """derivatives of the diagonal of a tensor whose dimensions have the same size, and of functions given by bases and points"""
    d = len(case["act"])
    for n, p, rr in ((1, 4, 1), (2, 1, 1), (3, 4, 1), (2, 4, 2)):
        y = tbt.make(case, p, 1, rr)
        m = M.of(y.tree)
        ts = []
        for a in m.nodes:
            c = np.asarray(y.tensors[a - 1].data)
            sh = list(c.shape)
            if y.is_active_node[a - 1]:
                if not m.children[a]:
                    sh[0] = n
                for k, ch in enumerate(m.children[a]):
                    if not y.is_active_node[ch - 1]:
                        sh[k] = n
                c = ref.gen(tuple(sh), 3 + a)
                ts.append(tensap.FullTensor(c, c.ndim, list(c.shape)))
            else:
                ts.append(y.tensors[a - 1])
        x = tensap.TreeBasedTensor(ts, y.tree)
        eye = [np.eye(n)] * d
        H = tensap.FunctionalBases([legendre(n, k) for k in range(d)])
        X = np.column_stack([-0.9 + 1.7 * ((np.arange(4) * (k + 2) + 1) % 5) / 5.0 for k in range(d)])
        F = tensap.FunctionalTensor(x, H)
        E = tensap.FunctionalTensor(x, H.eval(X))
        with ctx.step("mode size %d, ranks#%s" % (n, p)):
            ctx.trace()
            for a in m.nodes:
                if not x.is_active_node[a - 1]:
                    continue
                ctx.state("diag", m.key(), list(x.is_active_node), n, a)
                core = np.asarray(x.tensors[a - 1].data)
                with ctx.op("parameter_gradient_eval(x)", a, pure=[F, X, x]):
                    ctx.close(ref.dense(F.parameter_gradient_eval(a, X)), ref.dense(E.parameter_gradient_eval(a)), "functional/parameter_gradient_eval")
                if rr > 1:
                    continue
                for mats in (None, eye):
                    with ctx.op("parameter_gradient_eval_diag", a, mats is None, pure=[x]):
                        g = ref.dense(x.parameter_gradient_eval_diag(a) if mats is None else x.parameter_gradient_eval_diag(a, mats))
                        perm = contract_order(x, m, a)
                        for name, c in candidates(core, True, 9):
                            w = np.einsum(ref.tbt_dense(tensap.TreeBasedTensor([tensap.FullTensor(c, c.ndim, list(c.shape)) if b == a else x.tensors[b - 1] for b in m.nodes], x.tree)),
                                          [0] * d, [0])
                            ctx.close(contract(g, np.transpose(c, perm)), w, "parameter_gradient_eval_diag", msg=name)
                    if a == m.root:
                        continue
                    with ctx.op("parameter_gradient_eval_diag_dmrg", a, mats is None, pure=[x]):
                        if mats is None:
                            r = x.parameter_gradient_eval_diag_dmrg(a)
                        else:
                            first, r = r, x.parameter_gradient_eval_diag_dmrg(a, mats)
                            for u, v in zip(first, r):
                                ctx.close(ref.dense(u), ref.dense(v), "parameter_gradient_eval_diag_dmrg", shape=True)
                if a != m.root:
                    with ctx.op("parameter_gradient_eval_dmrg(x)", a, pure=[F, X, x]):
                        ctx.close(ref.dense(F.parameter_gradient_eval_dmrg(a, X)), ref.dense(E.parameter_gradient_eval_dmrg(a)), "functional/parameter_gradient_eval_dmrg")
                        for u, v in zip(F.parameter_gradient_eval_dmrg(a, X, "dmrg_low_rank"), E.parameter_gradient_eval_dmrg(a, dmrg_type="dmrg_low_rank")):
                            ctx.close(ref.dense(u), ref.dense(v), "functional/parameter_gradient_eval_dmrg")


def contract_order(x, m, a):
    """order in which the derivative lists the dimensions of the core: active children, inactive children, parent"""
    ch = m.children[a]
    act = [k for k, c in enumerate(ch) if x.is_active_node[c - 1]]
    ina = sorted((k for k, c in enumerate(ch) if not x.is_active_node[c - 1]), key=lambda k: ch[k])
    if not ch:
        return list(range(x.tensors[a - 1].data.ndim))
    return act + ina + list(range(len(ch), x.tensors[a - 1].data.ndim))


def run_cpdiag(case, ctx):
    d, r = case["d"], case["r"]
    for n in (1, 2, 3):
        space = [ref.gen((n, r), k) for k in range(d)]
        core = ref.gen((r,), 7)
        x = tensap.CanonicalTensor([a.copy() for a in space], core.copy())
        H = tensap.FunctionalBases([legendre(n, k) for k in range(d)])
        X = np.column_stack([-0.9 + 1.7 * ((np.arange(4) * (k + 2) + 1) % 5) / 5.0 for k in range(d)])
        F, E = tensap.FunctionalTensor(x, H), tensap.FunctionalTensor(x, H.eval(X))
        ctx.trace()
        for mu in range(1, d + 2):
            ctx.state("cpdiag", n, d, r, mu)
            with ctx.op("cp-parameter_gradient_eval(x)", mu, pure=[F, X, x], sig="cp-functional"):
                ctx.close(ref.dense(F.parameter_gradient_eval(mu, X)), ref.dense(E.parameter_gradient_eval(mu)), "cp-functional")
            if mu == d + 1:
                with ctx.op("cp-parameter_gradient_eval_diag", mu, pure=[x], sig="cp-diag"):
                    g = ref.dense(x.parameter_gradient_eval_diag(mu))
                    for name, c in candidates(core, True, 9):
                        ctx.close(contract(g, c), np.einsum(ref.cp_dense(space, c), [0] * d, [0]), "cp-diag", msg=name)
                continue
            for mats in (None, [np.eye(n)] * d):
                with ctx.op("cp-parameter_gradient_eval_diag", mu, mats is None, pure=[x], sig="cp-diag"):
                    g = ref.dense(x.parameter_gradient_eval_diag(mu) if mats is None else x.parameter_gradient_eval_diag(mu, mats))
                    for name, c in candidates(space[mu - 1], True, 9):
                        sp = list(space)
                        sp[mu - 1] = c
                        ctx.close(contract(g, c.T), np.einsum(ref.cp_dense(sp, np.ones(r)), [0] * d, [0]), "cp-diag", msg=name)
