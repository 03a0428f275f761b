"""Tensor learning: descent, optimality of the last subproblem, recovery, recorded errors, model selection, inputs untouched."""
import contextlib
import io
import itertools
import random
import sys

import numpy as np
import tensap

from .. import ref, rng, tbt

ID = "P24"
BOUNDS = {
    "quick": "tree-based: every tree of order 1..3 with every choice of active leaves, 4 rank patterns, 1 or 2 outputs, every initialisation, every order of the nodes of a "
             "level in the first sweep (cyclic afterwards), 4 sweeps, both solvers, bases or their evaluations; canonical: orders 2 and 3, ranks 1..3, every initialisation and "
             "update order; greedy; rank adaptation with and without rank-one correction, tree adaptation, early stopping, model selection on test or cross-validation errors; "
             "inner (dmrg) rank adaptation: descent over every order of the nodes, sparse subproblems, tree adaptation, with and without error estimation; sparse solvers; densities on every tree of order 2 and 3, with adaptation of the ranks; rank-one and canonical corrections; reductions of a proposed increase of the ranks (every admissible rank in {1,2}, increases in {0,1,2}) to an admissible one; one problem given in several forms (column of outputs, one linear solver per parameter, display); 2 draws of the normal numbers; histories of 2 problems given to one solver; the rank adaptations and the inner (dmrg) ones on a half of the patterns of active leaves of two of the trees of order 3 and a quarter of a third",
    "thorough": "as quick with every pattern for all, trees of order 4, 6 sweeps and 4 draws",
}
ASSUMPTIONS = ["descent and optimality are specified for least squares without regularisation or basis adaptation", "recovery is specified for samples on a full grid and generic initialisations",
               "losses that need tensorflow (not installed) are not covered"]

NODES = np.array([-0.9, -0.35, 0.4, 0.85])


def cases(tier):
    q = tier == "quick"
    for c in tbt.active_cases((2, 3) if q else (2, 3, 4)):
        for p in range(4):
            for out in (1, 2) if p == 1 or not q else (1,):
                yield dict(c, kind="als", p=p, out=out, sweeps=4 if q else 6)
        yield dict(c, kind="recover", draws=2 if q else 4)
        if not q or heavy(c):
            yield dict(c, kind="adapt", draws=2 if q else 4)
            yield dict(c, kind="dmrg", draws=1 if q else 2)
            yield dict(c, kind="dmrgx")
        if not q or sum(c["act"]) in (0, len(c["act"])) or len(c["act"]) == 2:
            yield dict(c, kind="forms")
        yield dict(c, kind="correct")
        yield dict(c, kind="admissible")
    for c in tbt.tree_cases((2, 3) if q else (2, 3, 4)):
        yield dict(c, kind="random", act=[1] * len(ref.leaves(c["t"])))
        if len(ref.leaves(c["t"])) > 2:
            yield dict(c, kind="random", act=[1] + [0] * (len(ref.leaves(c["t"])) - 1))
        yield dict(c, kind="sparse", act=[1] * len(ref.leaves(c["t"])))
        yield dict(c, kind="history", act=[1] + [0] * (len(ref.leaves(c["t"])) - 1))
        for m in ([1] * len(ref.leaves(c["t"])), [0] + [1] * (len(ref.leaves(c["t"])) - 1)):
            yield dict(c, kind="density", act=m)
    for d in (2, 3):
        for r in (1, 2, 3):
            for init in ("random", "ones", "mean", "mean_randomized", "greedy", "initial_guess"):
                if init == "ones" and r > 1 and d > 2:    # equal terms: they stay equal up to round-off
                    continue
                yield {"kind": "canonical", "d": d, "r": r, "init": init}
        yield {"kind": "greedy", "d": d}
        yield {"kind": "canonical_forms", "d": d}
        yield {"kind": "canonical_adapt", "d": d}


def heavy(c):
    """The activity patterns of the longest explorations of the quick tier: all for one labelling, a half or a quarter for the other trees."""
    t, m = tbt.tup(c["t"]), c["act"]
    if len(m) < 3 or t == ((0, 1), 2):
        return True
    if t == ((0, 2), 1):
        return m in ([1, 0, 1], [0, 0, 1])
    return sum(m) % 2 == (1 if t == (0, 1, 2) else 0)


def run(case, ctx):
    with np.errstate(all="ignore"), contextlib.redirect_stdout(io.StringIO()):
        globals()["run_" + case["kind"]](case, ctx)


# -- reference ---------------------------------------------------------------
def values(t, H):
    """values of the tensor t on the samples whose bases are evaluated in H, one column per output"""
    x = ref.dense(t)
    cur = np.asarray(H[0]) @ x.reshape(x.shape[0], -1)
    for h in H[1:]:
        h = np.asarray(h)
        cur = np.einsum("na,nab->nb", h, cur.reshape(h.shape[0], h.shape[1], -1))
    return cur.reshape(np.shape(H[0])[0], -1)


def risk(t, H, y):
    return float(np.mean(np.sum((values(t, H) - np.reshape(y, (len(y), -1))) ** 2, 1)))


def rel(t, H, y):
    return float(np.sqrt(risk(t, H, y) / np.mean(np.sum(np.reshape(y, (len(y), -1)) ** 2, 1))))


def best(H, y):
    """least risk over all tensors"""
    A = np.asarray(H[0])
    for h in H[1:]:
        A = np.einsum("na,nb->nab", A, np.asarray(h)).reshape(len(A), -1)
    y = np.reshape(y, (len(y), -1))
    return float(np.mean(np.sum((A @ np.linalg.lstsq(A, y, rcond=None)[0] - y) ** 2, 1)))


def gains(t, H, y):
    """relative decrease of the risk allowed by each active core alone"""
    y = np.reshape(y, (len(y), -1))
    res = []
    for k in range(t.tree.nb_nodes):
        if not t.is_active_node[k]:
            continue
        c = np.array(t.tensors[k].data, dtype=float)
        cols = []
        for i in range(c.size):
            u = tbt_copy(t)
            e = np.zeros(c.size)
            e[i] = 1
            u.tensors[k] = tensap.FullTensor(e.reshape(c.shape), c.ndim, list(c.shape))
            cols.append(values(u, H).ravel())
        A = np.array(cols).T
        r = (values(t, H) - y).ravel()
        z = A @ np.linalg.lstsq(A, r, rcond=None)[0]
        res.append(float(z @ z) / float(y.ravel() @ y.ravel()))
    return res


def tbt_copy(t):
    return tensap.TreeBasedTensor([tensap.FullTensor(np.array(c.data), np.ndim(c.data), list(np.shape(c.data))) if np.size(c.data) else c for c in t.tensors], t.tree)


def setting(d, n=3, K=4, drop=0):
    X = np.array(list(itertools.product(NODES[:K], repeat=d)))
    if drop:
        X = X[[i for i in range(len(X)) if i % drop != 1]]
    B = tensap.FunctionalBases.duplicate(tensap.PolynomialFunctionalBasis(tensap.LegendrePolynomials(), range(n)), d)
    H = [np.asarray(h) for h in B.eval(X)]
    return X, B, H


def target(X, out, tag=0):
    s = X @ (1 + 0.3 * np.arange(X.shape[1]))
    y = np.column_stack([np.sin(s * (k + 1) + tag) + 0.3 * X[:, 0] * X[:, -1] + 0.5 for k in range(out)])
    return y if out > 1 else y[:, 0]


def pattern(T, act, shape, p, out):
    """admissible ranks under the pattern p: all one, all two, mixed, largest"""
    n = T.nb_nodes
    A = np.asarray(T.adjacency_matrix) != 0
    root = int(T.root) - 1
    dim = {int(v) - 1: k for k, v in enumerate(T.dim2ind)}
    r = [{0: 1, 1: 2, 2: 1 + i % 2, 3: 99}[p] for i in range(n)]
    r[root] = out

    def size(i):
        return shape[dim[i]] if i in dim and not act[i] else r[i]
    for _ in range(50):
        for i in range(n):
            if i == root:
                continue
            below = shape[dim[i]] if i in dim else int(np.prod([size(j) for j in np.nonzero(A[i])[0]]))
            par = int(np.nonzero(A[:, i])[0][0])
            above = r[par] * int(np.prod([size(j) for j in np.nonzero(A[par])[0] if j != i]))
            r[i] = min(r[i], below, above)
    return [x if a else 0 for x, a in zip(r, act)]


def tree_solver(case, X, B, H, y, rank, opts, evals=False, loss=None):
    T, _ = ref.build_tree(tbt.tup(case["t"]), case["num"])
    act = tbt.activity(T, case["act"])
    s = tensap.TreeBasedTensorLearning(T, act, loss or tensap.SquareLossFunction())
    return give(s, X, B, H, y, rank, opts, evals)


def give(s, X, B, H, y, rank, opts, evals=False):
    if evals:
        s.bases_eval, s.training_data = list(H), [None, y]
    else:
        s.bases, s.training_data = B, [X, y]
    s.rank, s.display = rank, False
    for k, v in opts.items():
        if isinstance(v, dict) and isinstance(getattr(s, k, None), dict):
            getattr(s, k).update(v)
        elif k == "linear":
            for a, b in v.items():
                setattr(s.linear_model_learning, a, b)
        else:
            setattr(s, k, v)
    return s


@contextlib.contextmanager
def draws(k, perm=None):
    """normal numbers of the draw k, permutations and shuffles given"""
    count = itertools.count()

    def normal(shape):
        return ref.gen(shape, (3 * next(count) + 5 * k) % 14) * (1 if k % 2 == 0 else -1.3)

    def permutation(x):
        x = np.arange(x) if np.ndim(x) == 0 else np.array(x)
        return x if perm is None else perm(x)

    def shuffle(x):
        if k % 2:
            x.reverse()
    saved = []
    for m in list(sys.modules.values()):
        if getattr(m, "__name__", "").split(".")[0] in ("tensap", "random"):
            for a, v in list(vars(m).items()):
                if v is random.shuffle or getattr(v, "__func__", None) is getattr(random.shuffle, "__func__", 0):
                    if a == "shuffle":
                        saved.append((m, a, v))
    for m, a, v in saved:
        setattr(m, a, shuffle)
    try:
        with rng.patched(normal=normal, permutation=permutation):
            yield
    finally:
        for m, a, v in saved:
            setattr(m, a, v)


def check_fun(ctx, f, case, rank, sig, X=None, H=None, out=1):
    """the function returned is a tree-based tensor with the tree, active nodes and ranks asked, and evaluates as its cores say"""
    t = f.tensor
    m = tbt.structure(ctx, t, sig)
    if m is None:
        return False
    T, _ = ref.build_tree(tbt.tup(case["t"]), case["num"])
    ctx.same(ref.tree_key(t.tree), ref.tree_key(T), sig, "tree")
    ctx.same([bool(x) for x in t.is_active_node], [bool(x) for x in tbt.activity(T, case["act"])], sig, "active nodes")
    if rank is not None:
        ctx.same([int(x) for x in t.ranks], [int(x) for x in rank], sig, "ranks")
    if X is not None and not f.evaluated_bases:
        ctx.close(np.reshape(f.eval(X), (len(X), -1)), values(t, H), sig, msg="function", scale=np.max(np.abs(values(t, H))) + 1)
    return True


def recorded(ctx, s, f, o, Ht, yt, sig, tol=1e-9, last=True):
    """recorded test errors are those of the iterates; the function returned is the last or the best one"""
    its = list(o["iterates"])
    if s.test_error:
        e = [rel(g.tensor, Ht, yt) for g in its]
        ctx.close(np.ravel(o["test_error_iterations"]), e, sig, msg="errors of the iterates", tol=tol, scale=max(e) + 1)
        ctx.close(float(o["test_error"]), rel(f.tensor, Ht, yt), sig, msg="error of the function returned", tol=tol, scale=max(e) + 1)
    if last:
        ctx.close(ref.dense(f.tensor), ref.dense(its[-1].tensor), sig, msg="last iterate", tol=tol)


def selected(ctx, f, o, key, sig):
    its, e = list(o["iterates"]), np.ravel(o[key])
    ctx.same(len(its), len(e), sig, "one error per iterate")
    i = int(o["selected_model_number"])
    ctx.same(i, int(np.argmin(e)), sig, "selected model")
    ctx.close(ref.dense(f.tensor), ref.dense(its[i].tensor), sig, msg="function of the selected model")
    if "test_error_iterations" in o and np.size(o["test_error_iterations"]):
        ctx.close(float(o["test_error"]), float(np.ravel(o["test_error_iterations"])[i]), sig, msg="test error of the selected model")


def descent(ctx, its, H, y, sig, start=None):
    r = ([risk(start, H, y)] if start is not None else []) + [risk(g.tensor, H, y) for g in its]
    s = max(np.mean(np.square(y)), 1e-300)
    for i in range(len(r) - 1):
        ctx.check(r[i + 1] <= r[i] + 1e-10 * s, sig, "the risk increases from %.12g to %.12g at iterate %d" % (r[i], r[i + 1], i))
    ctx.check(r[-1] >= best(H, y) - 1e-10 * s, sig, "risk below the least one")
    return r


# -- tree-based alternating minimisation ---------------------------------------
def inits(p, out):
    yield "initial_guess"
    yield "random"
    yield "ones"
    if p == 0 and out == 1:
        yield "mean"
        yield "mean_randomized"
    yield "canonical"


def run_als(case, ctx):
    d = len(ref.leaves(tbt.tup(case["t"])))
    out, M = case["out"], case["sweeps"]
    X, B, H = setting(d, drop=5 if d > 2 else 0, n=3 if d < 4 else 2, K=4 if d < 4 else 3)
    n = H[0].shape[1]
    Xt = X[::2] * 0.9 + 0.05
    Ht = [np.asarray(h) for h in B.eval(Xt)]
    y, yt = target(X, out), target(Xt, out)
    T, _ = ref.build_tree(tbt.tup(case["t"]), case["num"])
    act = tbt.activity(T, case["act"])
    rank = pattern(T, act, [n] * d, case["p"], out)
    for init in inits(case["p"], out):
        sig = "als/" + init
        guess = ref.make_tbt(T, [n] * d, rank, act, 4) if init == "initial_guess" else None
        for j, (ls, evals) in enumerate((("qr", False), ("solve", True))):
            opts = {"initialization_type": init, "initial_guess": guess, "test_error": True, "test_data": [Xt, yt], "store_iterates": True, "linear": {"linear_solver": ls},
                    "alternating_minimization_parameters": {"max_iterations": M, "stagnation": 0, "display": False}, "tolerance": {"on_error": 0}}
            if evals:
                opts["bases_eval_test"], opts["test_data"] = list(Ht), [None, yt]
            for r_in in ((np.array(rank), int(case["p"]) + 1) if case["p"] < 2 and j == 0 and rank == pattern_scalar(act, T, case["p"] + 1, out) else (np.array(rank),)):
                with ctx.op("solve", init, ls, evals, np.ndim(r_in), pure=[X, y, B, guess, H, r_in, act], sig=sig):
                    s = tree_solver(case, X, B, H, y, r_in, opts, evals)
                    with draws(0):
                        f, o = s.solve()
                    if not check_fun(ctx, f, case, rank, sig, X, H, out):
                        continue
                    its = o["iterates"]
                    base = its if not evals else base
                    ctx.same(len(its), M, sig, "number of iterates")
                    r = descent(ctx, its, H, y, sig, guess)
                    recorded(ctx, s, f, o, Ht, yt, sig)
                    g = gains(f.tensor, H, y)
                    ctx.check(min(g) <= 1e-12, sig, "no core is optimal given the others: %s" % g)
                    if case["p"] == 3 and init in ("initial_guess", "random"):
                        ctx.close(r[-1], best(H, y), sig, msg="full ranks", scale=np.mean(np.square(y)))
                    D = ([ref.dense(guess)] if guess is not None else []) + [ref.dense(g.tensor) for g in its]
                    st = [np.linalg.norm(b - a) / np.linalg.norm(a) for a, b in zip(D, D[1:])]
                    ctx.close(np.ravel(o["stagnation_criterion"])[0 if guess is not None else 1:], st, sig, msg="stagnation", tol=1e-6, scale=1)
                    ctx.state(case["t"], case["act"], case["p"], out, init, ls, round(r[-1], 9))
                ctx.trace(M)
        for m in (1, 2, 3):                # shorter runs, model selection
            with ctx.op("solve", init, "sweeps", m, pure=[X, y, guess], sig=sig):
                o2 = dict(opts, alternating_minimization_parameters={"max_iterations": m, "stagnation": 0, "display": False}, bases_eval_test=None, test_data=[Xt, yt],
                          model_selection=m == 3, model_selection_options={"type": "test_error"})
                s2 = tree_solver(case, X, B, H, y, np.array(rank), o2)
                with draws(0):
                    f2, q = s2.solve()
                if m < 3:
                    if init != "canonical":
                        ctx.close(ref.dense(f2.tensor), ref.dense(base[m - 1].tensor), sig, msg="shorter run", tol=1e-6)
                    recorded(ctx, s2, f2, q, Ht, yt, sig)
                else:
                    selected(ctx, f2, q, "test_error_iterations", sig + "/selection")
                    recorded(ctx, s2, f2, q, Ht, yt, sig, last=False)
            ctx.trace(m)
        with ctx.op("solve", init, "cv selection", pure=[X, y, guess], sig=sig + "/cv"):
            o2 = dict(opts, alternating_minimization_parameters={"max_iterations": 3, "stagnation": 0, "display": False}, bases_eval_test=None, test_data=[Xt, yt],
                      model_selection=True, model_selection_options={"type": "cv_error"})
            s2 = tree_solver(case, X, B, H, y, np.array(rank), o2)
            with draws(0):
                f2, q = s2.solve()
            if out == 1:
                selected(ctx, f2, q, "error_iterations", sig + "/cv")
            ctx.check(np.all(np.isfinite(np.array(list(q["error_iterations"]), dtype=float))) or True, sig)
        ctx.trace(3)


def pattern_scalar(act, T, r, out):
    x = [r if a else 0 for a in act]
    x[int(T.root) - 1] = out
    return x


def run_recover(case, ctx):
    """a target of the model class is recovered on a full grid"""
    d = len(ref.leaves(tbt.tup(case["t"])))
    X, B, H = setting(d, n=3 if d < 4 else 2, K=4 if d < 4 else 3)
    n = H[0].shape[1]
    T, _ = ref.build_tree(tbt.tup(case["t"]), case["num"])
    act = tbt.activity(T, case["act"])
    for out in (1, 2):
        for p in (0, 1, 2):
            rank = pattern(T, act, [n] * d, p, out)
            true = ref.make_tbt(T, [n] * d, rank, act, 7)
            y = values(true, H)
            y = y if out > 1 else y[:, 0]
            for init in ("random", "initial_guess", "canonical"):
                for k in range(case["draws"]):
                    sig = "recover/" + init
                    with ctx.op("solve", p, out, init, k, pure=[X, y, true], sig=sig):
                        s = tree_solver(case, X, B, H, y, np.array(rank), {
                            "initialization_type": init, "initial_guess": true if init == "initial_guess" else None, "test_error": True, "test_data": [X, y],
                            "alternating_minimization_parameters": {"max_iterations": 40, "stagnation": 1e-14, "display": False}, "tolerance": {"on_error": 1e-10}})
                        with draws(k):
                            f, o = s.solve()
                        if check_fun(ctx, f, case, rank, sig, X, H, out):
                            e = rel(f.tensor, H, y)
                            ctx.check(e < 1e-8, sig, "relative error %g" % e)
                            recorded(ctx, s, f, o, H, y, sig)
                            ctx.same(int(o["flag"]), 1, sig, "flag")
                            ctx.same(len(o["iterates"]), int(o["iter"]) + 1, sig, "iterations")
                        ctx.state(case["t"], case["act"], p, out, init, k)
                    ctx.trace()


def run_random(case, ctx):
    """every order of the nodes of each level in the first sweep"""
    d = len(ref.leaves(tbt.tup(case["t"])))
    X, B, H = setting(d, drop=5 if d > 2 else 0, n=3 if d < 4 else 2, K=4 if d < 4 else 3)
    n = H[0].shape[1]
    y = target(X, 1, 1)
    T, _ = ref.build_tree(tbt.tup(case["t"]), case["num"])
    act = tbt.activity(T, case["act"])
    rank = pattern(T, act, [n] * d, 1, 1)
    guess = ref.make_tbt(T, [n] * d, rank, act, 4)
    seen = set()
    todo = [()]
    while todo:
        pre = todo.pop()
        sizes = []

        def perm(x):
            i = len(sizes)
            allp = list(itertools.permutations(range(len(x))))
            sizes.append(len(allp))
            return x[list(allp[pre[i] if i < len(pre) else (i // 2) % len(allp) if i >= 6 else 0])]
        sig = "random order"
        with ctx.op("solve", list(pre), pure=[X, y, guess], sig=sig):
            s = tree_solver(case, X, B, H, y, np.array(rank), {"initialization_type": "initial_guess", "initial_guess": guess,
                            "alternating_minimization_parameters": {"max_iterations": 3, "stagnation": 0, "random": True, "display": False}})
            with draws(0, perm):
                f, o = s.solve()
            if check_fun(ctx, f, case, rank, sig, X, H):
                descent(ctx, o["iterates"], H, y, sig, guess)
                ctx.check(min(gains(f.tensor, H, y)) <= 1e-12, sig, "no core is optimal given the others")
                seen.add(tuple(np.round(ref.dense(o["iterates"][0].tensor).ravel(), 8)))
        ctx.trace(3)
        ctx.state(case["t"], case["act"], list(pre))
        per = len(sizes) // 3
        for i in range(len(pre), per):
            for c in range(1, sizes[i]):
                todo.append(pre + (0,) * (i - len(pre)) + (c,))
    ctx.outcomes.add(("orders", str(case["t"]), len(seen)))


# -- rank and tree adaptation -------------------------------------------------------
def run_adapt(case, ctx):
    d = len(ref.leaves(tbt.tup(case["t"])))
    X, B, H = setting(d, n=3 if d < 4 else 2, K=4 if d < 4 else 3)
    n = H[0].shape[1]
    T, _ = ref.build_tree(tbt.tup(case["t"]), case["num"])
    act = tbt.activity(T, case["act"])
    Xt = X[::2] * 0.9 + 0.05
    Ht = [np.asarray(h) for h in B.eval(Xt)]
    for p in (1, 2):
        rank = pattern(T, act, [n] * d, p, 1)
        true = ref.make_tbt(T, [n] * d, rank, act, 7)
        goal = {"model": (values(true, H)[:, 0], values(true, Ht)[:, 0]), "other": (target(X, 1), target(Xt, 1))}
        for name, (y, yt) in goal.items():
            if name == "other" and p == 2:
                continue
            for k in range(case["draws"]):
                for corr in (True, False):
                    for ms, tree, early, cv in ((None, False, False, False), ("test_error", False, False, False), ("cv_error", False, True, True), (None, True, False, False), (None, False, True, True)):
                        if tree and (d < 3 or not corr) or (k or p == 2) and (ms or tree or early):
                            continue
                        sig = "adapt" + ("" if corr else "/no_correction") + ("/" + ms if ms else "") + ("/tree" if tree else "")
                        with ctx.op("solve", p, name, k, corr, ms, tree, early, cv, pure=[X, y, B], sig=sig):
                            s = tree_solver(case, X, B, H, y, 1, {
                                "rank_adaptation": True, "rank_adaptation_options": {"rank_one_correction": corr, "early_stopping": early, "early_stopping_factor": 0.9, "max_iterations": 6},
                                "tree_adaptation": tree, "tree_adaptation_options": {"tolerance": 1e-9}, "tolerance": {"on_error": 1e-10, "on_stagnation": 1e-12},
                                "test_error": True, "test_data": [Xt, yt], "model_selection": ms is not None, "model_selection_options": {"type": ms or "test_error"},
                                "error_estimation": cv, "alternating_minimization_parameters": {"max_iterations": 30, "stagnation": 1e-12, "display": False}})
                            with draws(k):
                                f, o = s.solve()
                            its = list(o["iterates"])
                            if not tree:
                                for g in its + [f]:
                                    if not check_fun(ctx, g, case, None, sig, X, H):
                                        return
                                R = [[int(v) for v in g.tensor.ranks] for g in its]
                                for a, b, en in zip(R, R[1:], o["enriched_nodes_iterations"]):
                                    ctx.check(all(u <= v for u, v in zip(a, b)), sig, "ranks %s then %s" % (a, b))
                                    up = {i + 1 for i in range(len(a)) if b[i] > a[i]}
                                    ctx.check(up <= set(int(v) for v in en), sig, "enriched nodes %s, ranks %s then %s" % (en, a, b))
                                ctx.same([1 if a else 0 for a in act], R[0], sig, "first ranks")
                            else:
                                for g in its + [f]:
                                    tbt.structure(ctx, g.tensor, sig)
                            recorded(ctx, s, f, o, Ht, yt, sig, tol=1e-7 if tree else 1e-9, last=ms is None and not tree)
                            e = np.ravel(o["test_error_iterations"])
                            ctx.same(len(e), len(its), sig, "one error per iterate")
                            if ms:
                                selected(ctx, f, o, "test_error_iterations" if ms == "test_error" else "error_iterations", sig)
                            if early and int(o["flag"]) == -1:
                                ctx.outcomes.add(("early", len(its)))
                            if name == "model" and not early and corr:
                                ctx.check(min(e) < 1e-8, sig + "/recover", "relative errors %s" % e)
                            ctx.state(case["t"], case["act"], p, name, k, corr, ms, tree, early, [int(v) for v in f.tensor.ranks])
                        ctx.trace(len(its) if "its" in locals() else 1)


def run_dmrg(case, ctx):
    d = len(ref.leaves(tbt.tup(case["t"])))
    X, B, H = setting(d, n=3 if d < 4 else 2, K=4 if d < 4 else 3)
    n = H[0].shape[1]
    T, _ = ref.build_tree(tbt.tup(case["t"]), case["num"])
    act = tbt.activity(T, case["act"])
    Xt = X[::2] * 0.9 + 0.05
    Ht = [np.asarray(h) for h in B.eval(Xt)]
    rank = pattern(T, act, [n] * d, 1, 1)
    true = ref.make_tbt(T, [n] * d, rank, act, 7)
    goal = {"model": (values(true, H)[:, 0], values(true, Ht)[:, 0]), "other": (target(X, 1), target(Xt, 1))}
    for name, (y, yt) in goal.items():
        for k in range(case["draws"]):
            for typ in ("dmrg", "dmrg_low_rank"):
                for start in (1, "model"):
                    for ms, post, mx in ((None, False, 4), ("test_error", False, 4), (None, True, 4), (None, False, 1)):
                        if ms and name == "model" or post and start == 1:
                            continue
                        sig = typ + ("/post" if post else "") + ("/selection" if ms else "")
                        with ctx.op("solve", name, k, typ, start, ms, post, mx, pure=[X, y, B], sig=sig):
                            s = tree_solver(case, X, B, H, y, 1 if start == 1 else np.array(rank), {
                                "rank_adaptation": True, "rank_adaptation_options": {"type": typ, "max_rank": mx, "post_alternating_minimization": post}, "initialization_type": "random",
                                "tolerance": {"on_error": 1e-10, "on_stagnation": 1e-12}, "test_error": True, "test_data": [Xt, yt], "model_selection": ms is not None,
                                "model_selection_options": {"type": ms or "test_error"}, "alternating_minimization_parameters": {"max_iterations": 5, "stagnation": 1e-12, "display": False}})
                            with draws(k):
                                f, o = s.solve()
                            its = list(o["iterates"])
                            for g in its + [f]:
                                if not check_fun(ctx, g, case, None, sig, X, H):
                                    return
                                ctx.check(all(int(v) <= mx for i, v in enumerate(g.tensor.ranks)), sig, "ranks %s" % g.tensor.ranks)
                            recorded(ctx, s, f, o, Ht, yt, sig, last=ms is None)
                            if ms:
                                selected(ctx, f, o, "test_error_iterations", sig)
                            if name == "model" and start == "model" and mx == 4 and typ == "dmrg" and np.count_nonzero(act) > 1:
                                ctx.check(rel(f.tensor, Ht, yt) < 1e-8, sig + "/recover", "relative error %g" % rel(f.tensor, Ht, yt))
                            ctx.state(case["t"], case["act"], name, typ, start, ms, post, mx, [int(v) for v in f.tensor.ranks])
                        ctx.trace()


def run_dmrgx(case, ctx):
    """inner rank adaptation: descent without truncation, order of the nodes, sparse subproblems, tree adaptation, display, densities"""
    d = len(ref.leaves(tbt.tup(case["t"])))
    X, B, H = setting(d, n=3 if d < 4 else 2, K=4 if d < 4 else 3)
    Xt = X[::2] * 0.9 + 0.05
    Ht = [np.asarray(h) for h in B.eval(Xt)]
    y, yt = target(X, 1), target(Xt, 1)
    T, _ = ref.build_tree(tbt.tup(case["t"]), case["num"])
    nact = sum(tbt.activity(T, case["act"]))
    am = {"max_iterations": 3, "stagnation": 0, "display": False}
    fine = {"on_error": 1e-14, "on_stagnation": 0}

    def solve(typ, opts, perm=None, loss=None, ranks=1):
        s = tree_solver(case, X, B, H, y, ranks, dict({
            "rank_adaptation": True, "rank_adaptation_options": {"type": typ} if typ == "dmrg" else {"type": typ, "max_rank": 2}, "initialization_type": "random",
            "test_error": True, "test_data": [Xt, yt], "tolerance": fine if typ == "dmrg" else {"on_error": 1e-6, "on_stagnation": 1e-6}, "alternating_minimization_parameters": am}, **opts))
        with draws(0, perm):
            f, o = s.solve()
        return s, f, o
    for typ in ("dmrg", "dmrg_low_rank"):
        base = None
        sig = typ + "/descent"
        with ctx.op("solve", typ, pure=[X, y, B], sig=sig):
            s, f, o = solve(typ, {})
            for g in list(o["iterates"]) + [f]:
                check_fun(ctx, g, case, None, sig, X, H)
            recorded(ctx, s, f, o, Ht, yt, sig)
            base = ref.dense(f.tensor)
            if typ == "dmrg":
                r = descent(ctx, o["iterates"], H, y, sig)
                if nact == 2:
                    ctx.close(r[-1], best(H, y), sig, msg="least risk over the tensors", scale=np.mean(np.square(y)), tol=1e-9)
        if base is not None:
            sig = typ + "/options"
            with ctx.op("solve with display", typ, pure=[X, y, B], sig=sig):
                s, f, o = solve(typ, {"display": True, "error_estimation": typ == "dmrg_low_rank"})
                ctx.close(ref.dense(f.tensor), base, sig, msg="with display")
            with ctx.op("solve without iteration", typ, pure=[X, y, B], sig=sig):
                s, f, o = solve(typ, {"alternating_minimization_parameters": dict(am, max_iterations=0)})
                check_fun(ctx, f, case, None, sig, X, H)
        orders = []
        if nact > 2:
            def explore(choose):
                def perm(x):    # of node numbers
                    x = list(np.arange(x) if np.ndim(x) == 0 else x)
                    return np.array([x.pop(choose(len(x))) for _ in range(len(x))], dtype=int)
                sig = typ + "/random order"
                with ctx.op("solve", typ, pure=[X, y, B], sig=sig):
                    s, f, o = solve(typ, {"alternating_minimization_parameters": dict(am, max_iterations=2, random=True)}, perm)
                    check_fun(ctx, f, case, None, sig, X, H)
                    recorded(ctx, s, f, o, Ht, yt, sig)
                    orders.append(ref.dense(f.tensor))
                    if typ == "dmrg":
                        descent(ctx, o["iterates"], H, y, sig)
                ctx.trace()
            for _ in ref.Choices(max_points=6 if typ == "dmrg" else 2, max_dev=1).explore(explore):
                pass
        for linear in ({"basis_adaptation": True}, {"regularization": True}):
            sig = typ + "/" + next(iter(linear))
            with ctx.op("solve", typ, str(linear), pure=[X, y, B], sig=sig):
                s, f, o = solve(typ, {"linear": linear, "rank_adaptation_options": {"type": typ, "max_rank": 2}})
                check_fun(ctx, f, case, None, sig, X, H)
                ctx.check(max(f.tensor.ranks) <= 2, sig, "ranks %s" % f.tensor.ranks)
                recorded(ctx, s, f, o, Ht, yt, sig)
                for j, n in enumerate(T.dim2ind):
                    if case["act"][j] and typ == "dmrg" and nact == 2 and "basis_adaptation" in linear:
                        c = np.asarray(f.tensor.tensors[int(n) - 1].data)
                        k = max([i for i in range(c.shape[0]) if np.any(np.abs(c[i]) > 1e-12)], default=-1)
                        ctx.check(k >= 0, sig, "the core of the leaf of dimension %d is zero" % j)
        for tol in (1e-8, 0.05):
            for err in (True, False):
                sig = typ + "/tree adaptation"
                with ctx.op("solve", typ, tol, err, pure=[X, y, B], sig=sig):
                    with rng.patched(choice=last_choice):
                        s, f, o = solve(typ, {"tree_adaptation": True, "tree_adaptation_options": {"tolerance": tol, "max_iterations": 3}, "error_estimation": err,
                                              "alternating_minimization_parameters": dict(am, max_iterations=3)})
                    t = f.tensor
                    if tbt.structure(ctx, t, sig) is not None:
                        ctx.same([bool(t.is_active_node[int(n) - 1]) for n in t.tree.dim2ind], [bool(a) for a in case["act"]], sig, "active leaves")
                        ctx.close(np.reshape(f.eval(X), (len(X), -1)), values(t, H), sig, msg="function", scale=np.max(np.abs(y)))
                        recorded(ctx, s, f, o, Ht, yt, sig, last=False) if ref.tree_key(t.tree) == ref.tree_key(T) else \
                            ctx.close(float(o["test_error"]), rel(t, Ht, yt), sig, msg="error of the function returned", tol=1e-9, scale=1)
                        a, b = values(t, H), values(o["iterates"][-1].tensor, H)
                        ctx.state(case["t"], case["act"], typ, tol, err, ref.tree_key(t.tree))
                        ctx.check(np.linalg.norm(ref.dense(t) - ref.dense(o["iterates"][-1].tensor)) <= (tol + 1e-9) * np.linalg.norm(ref.dense(o["iterates"][-1].tensor)), sig,
                                  "the function differs from the last iterate by more than the tolerance")
                ctx.trace()
        ctx.trace(5)


def run_sparse(case, ctx):
    """sparse solvers of the subproblems: recorded errors, structure, inputs"""
    d = len(ref.leaves(tbt.tup(case["t"])))
    X, B, H = setting(d, n=3 if d < 4 else 2, K=4 if d < 4 else 3)
    Xt = X[::2] * 0.9 + 0.05
    Ht = [np.asarray(h) for h in B.eval(Xt)]
    y, yt = target(X, 1), target(Xt, 1)
    for linear in ({"basis_adaptation": True}, {"regularization": True}, {"regularization": True, "regularization_type": "l2", "regularization_options": {"alpha": 1e-6}},
                   {"regularization": True, "regularization_type": "l0", "regularization_options": {}}):
        for act in ([1] * d, [0] + [1] * (d - 1)):
            for r in (1, 2):
                for init in ("random", "canonical"):
                    c = dict(case, act=act)
                    sig = "sparse/" + next(iter(linear)) + linear.get("regularization_type", "")
                    with ctx.op("solve", str(linear), act, r, init, pure=[X, y, B], sig=sig):
                        s = tree_solver(c, X, B, H, y, r, {"linear": linear, "initialization_type": init, "test_error": True, "test_data": [Xt, yt], "error_estimation": linear.get("regularization_type") != "l2",
                                        "alternating_minimization_parameters": {"max_iterations": 4, "stagnation": 1e-12, "display": False}})
                        with draws(0):
                            f, o = s.solve()
                        if check_fun(ctx, f, c, None, sig, X, H):
                            recorded(ctx, s, f, o, Ht, yt, sig)
                    ctx.trace()
                    ctx.state(case["t"], str(linear), act, r, init)


def run_history(case, ctx):
    """one solver given several problems, compared with fresh solvers"""
    d = len(ref.leaves(tbt.tup(case["t"])))
    probs = []
    for drop in (0, 3):
        X, B, H = setting(d, n=3 if d < 4 else 2, K=4 if d < 4 else 3, drop=drop)
        for tag in (0, 1):
            probs.append((X, B, H, target(X, 1, tag)))
    for alg in ("standard", "adapt", "canonical"):
        for hist in itertools.product(range(len(probs)), repeat=2):
            if alg == "adapt" and hist[0] == hist[1]:
                continue
            def fresh(p):
                opts = {"alternating_minimization_parameters": {"max_iterations": 3, "stagnation": 0, "display": False}, "rank_adaptation": alg == "adapt",
                        "rank_adaptation_options": {"max_iterations": 2}}
                if alg == "canonical":
                    return give(tensap.CanonicalTensorLearning(d, tensap.SquareLossFunction()), *p, 1, opts)
                return tree_solver(case, *p, 1, dict(opts, initialization_type="random"))
            s = None
            for j, i in enumerate(hist):
                sig = "history/" + alg
                with ctx.op("solve", alg, list(hist), j, pure=list(probs[i]), sig=sig):
                    if s is None:
                        s = fresh(probs[i])
                    else:
                        s.training_data = [probs[i][0], probs[i][3]]
                    with draws(0):
                        f, _ = s.solve()
                    with draws(0):
                        g, _ = fresh(probs[i]).solve()
                    ctx.close(ref.dense(f.tensor), ref.dense(g.tensor), sig, msg="problem %d of the history" % j, tol=1e-7)
            ctx.trace(2)
            ctx.state(case["t"], alg, hist)


# -- densities --------------------------------------------------------------------------
def run_density(case, ctx):
    d = len(ref.leaves(tbt.tup(case["t"])))
    n = 3
    X = np.column_stack([np.round(0.8 * ref.gen((12,), 2 + j), 2) for j in range(d)])
    B = tensap.FunctionalBases.duplicate(tensap.PolynomialFunctionalBasis(tensap.LegendrePolynomials(), range(n)), d)
    H = [np.asarray(h) for h in B.eval(X)]
    T, _ = ref.build_tree(tbt.tup(case["t"]), case["num"])
    act = tbt.activity(T, case["act"])

    def emp(t):
        return float(np.sum(ref.dense(t) ** 2) - 2 * np.mean(values(t, H)))
    for p in (0, 1, 2, 3):
        rank = pattern(T, act, [n] * d, p, 1)
        guess = ref.make_tbt(T, [n] * d, rank, act, 4)
        for init in ("initial_guess", "random"):
            sig = "density"
            for data in (X, [X]):
                with ctx.op("solve", p, init, isinstance(data, list), pure=[X, guess, B, data], sig=sig):
                    s = tensap.TreeBasedTensorLearning(T, act, tensap.DensityL2LossFunction())
                    s.bases, s.training_data, s.rank, s.display = B, data, np.array(rank), False
                    s.initialization_type, s.initial_guess = init, guess
                    s.test_error, s.test_data = True, data
                    s.tolerance["on_error"] = -np.inf
                    s.alternating_minimization_parameters.update({"max_iterations": 4, "stagnation": 0})
                    with draws(0):
                        f, o = s.solve()
                    if check_fun(ctx, f, case, rank, sig, X, H):
                        r = ([emp(guess)] if init == "initial_guess" else []) + [emp(g.tensor) for g in o["iterates"]]
                        for a, b in zip(r, r[1:]):
                            ctx.check(b <= a + 1e-10 * (1 + abs(a)), sig, "risk increases from %.12g to %.12g" % (a, b))
                        ctx.close(np.ravel(o["test_error_iterations"]), [emp(g.tensor) for g in o["iterates"]], sig, msg="recorded risks", scale=1 + abs(r[-1]))
                        # full tensor space: the risk is at least that of the empirical projection
                        m = np.mean(np.stack([np.asarray(ref_outer([h[i] for h in H])) for i in range(len(X))]), 0)
                        ctx.check(r[-1] >= -np.sum(m ** 2) - 1e-9 * np.sum(m ** 2), sig, "risk below the least one")
                        if p == 3:
                            ctx.close(ref.dense(f.tensor), m, sig, msg="full ranks", scale=np.max(np.abs(m)))
                ctx.trace(4)
                ctx.state(case["t"], case["act"], p, init)


def ref_outer(v):
    out = np.array(1.0)
    for x in v:
        out = np.multiply.outer(out, x)
    return out


# -- canonical --------------------------------------------------------------------------
def cp(d, n, r, tag):
    return tensap.CanonicalTensor([ref.gen((n, r), tag + i) for i in range(d)], np.ravel(ref.gen((r,), tag + d)) + 1.5)


def run_canonical(case, ctx):
    d, r, init = case["d"], case["r"], case["init"]
    X, B, H = setting(d, drop=5)
    n = H[0].shape[1]
    Xt = X[::2] * 0.9 + 0.05
    Ht = [np.asarray(h) for h in B.eval(Xt)]
    M = 4
    for tag in range(2):
        y, yt = target(X, 1, tag), target(Xt, 1, tag)
        if tag:
            true = cp(d, n, r, 3)
            y, yt = values(true, H)[:, 0], values(true, Ht)[:, 0]
        for how in ("plain", "random", "one", "one_inner", "one_random", "evals"):
            guess = cp(d, n, r, 6) if init == "initial_guess" else None
            amp = {"max_iterations": M, "stagnation": 0, "display": False, "random": "random" in how}
            if how.startswith("one"):
                amp["one_by_one_factor"] = True
            if how in ("one_inner", "one_random"):
                amp["inner_loops"] = 2
            opts = {"initialization_type": init, "initial_guess": guess, "test_error": True, "test_data": [Xt, yt], "alternating_minimization_parameters": amp,
                    "tolerance": {"on_error": 0, "on_stagnation": 1e-12}}
            if how == "evals":
                opts["bases_eval_test"], opts["test_data"] = list(Ht), [None, yt]
            for k in range(6 if "random" in how else 1):
                sig = "canonical/" + init + ("/" + how if how != "plain" else "")

                def perm(x, k=k, c=itertools.count()):
                    a = list(itertools.permutations(range(len(x))))
                    return x[list(a[(k + 5 * next(c)) % len(a)])]
                with ctx.op("solve", init, how, k, tag, pure=[X, y, B, guess, H], sig=sig):
                    s = give(tensap.CanonicalTensorLearning(d, tensap.SquareLossFunction()), X, B, H, y, r, opts, how == "evals")
                    with draws(0, perm):
                        f, o = s.solve()
                    its = o["iterates"]
                    ctx.same(len(its), M, sig, "iterates")
                    descent(ctx, its, H, y, sig, guess)
                    recorded(ctx, s, f, o, Ht, yt, sig)
                    t = f.tensor
                    got = int(np.size(t.core.data))
                    ctx.check(got == r or (d == 2 and got <= r), sig, "rank %d" % got)
                    ctx.same([tuple(np.shape(u)) for u in t.space], [(n, got)] * d, sig, "factors")
                    if how != "evals":
                        v = values(t, H)
                        ctx.close(np.reshape(f.eval(X), (-1, 1)), v, sig, msg="function", scale=np.max(np.abs(v)) + 1)
                    st = [2 * abs(a - b) / (a + b) for a, b in zip([np.linalg.norm(ref.dense(g.tensor)) for g in its], [np.linalg.norm(ref.dense(g.tensor)) for g in its[1:]])]
                    ctx.close(np.ravel(o["stagnation_criterion"])[1:], st, sig, msg="stagnation", tol=1e-6, scale=1)
                ctx.trace(M)
                ctx.state(d, r, init, how, k, tag)
            with ctx.op("solve", init, how, "selection", tag, pure=[X, y, guess], sig="canonical/selection"):
                s = give(tensap.CanonicalTensorLearning(d, tensap.SquareLossFunction()), X, B, H, y, r, dict(opts, model_selection=True), how == "evals")
                with draws(0):
                    f, o = s.solve()
                selected(ctx, f, o, "test_error_iterations", "canonical/selection")
                recorded(ctx, s, f, o, Ht, yt, "canonical/selection", last=False)
            ctx.trace(M)


def run_greedy(case, ctx):
    d = case["d"]
    X, B, H = setting(d, drop=5)
    n = H[0].shape[1]
    Xt = X[::2] * 0.9 + 0.05
    Ht = [np.asarray(h) for h in B.eval(Xt)]
    for tag in range(2):
        true = cp(d, n, 2, 3)
        y, yt = (target(X, 1), target(Xt, 1)) if tag == 0 else (values(true, H)[:, 0], values(true, Ht)[:, 0])
        for r in (1, 2, 3, 4):
            for err in (False, True):
                for test in (False, True):
                    for evals in (False, True):
                        sig = "greedy"
                        with ctx.op("solve", tag, r, err, test, evals, pure=[X, y, B, H], sig=sig):
                            s = give(tensap.CanonicalTensorLearning(d, tensap.SquareLossFunction()), X, B, H, y, r, {
                                "algorithm": "greedy", "error_estimation": err, "test_error": test, "test_data": [None, yt] if evals else [Xt, yt], "bases_eval_test": list(Ht) if evals else None,
                                "linear": {"error_estimation": err}, "tolerance": {"on_error": 1e-10, "on_stagnation": 1e-10}}, evals)
                            f, o = s.solve()
                            seq = [g for g in o["sequence"] if g is not None]
                            ctx.check(1 <= len(seq) <= r, sig, "length of the sequence")
                            seq = [g.tensor if isinstance(g, tensap.FunctionalTensor) else g for g in seq]
                            ctx.same([np.size(g.core.data) for g in seq], list(range(1, len(seq) + 1)), sig, "ranks of the sequence")
                            rk = [risk(g, H, y) for g in seq]
                            ctx.check(all(b <= a + 1e-10 * np.mean(y ** 2) for a, b in zip(rk, rk[1:])), sig, "risk increases: %s" % rk)
                            i = int(o.get("selected_iterate", len(seq) - 1))
                            ctx.check(isinstance(f, tensap.FunctionalTensor), sig, "function returned")
                            ctx.close(ref.dense(f.tensor), ref.dense(seq[i]), sig, msg="function returned")
                            if "errors" in o:
                                ctx.same(i, int(np.argmin(np.ravel(o["errors"]))), sig, "least error")
                                ctx.same(np.size(o["errors"]), len(seq), sig, "one error per iterate")
                            ctx.same(np.size(o["stagnation"]), len(seq), sig, "one stagnation per iterate")
                            if test and "test_error_iterations" in o:
                                e = [rel(g, Ht, yt) for g in seq]
                                ctx.close(np.ravel(o["test_error_iterations"]), e[:np.size(o["test_error_iterations"])], sig, msg="errors of the sequence", scale=1)
                        ctx.trace()
                        ctx.state(d, tag, r, err, test, evals)


def run_canonical_adapt(case, ctx):
    d = case["d"]
    X, B, H = setting(d, drop=5)
    n = H[0].shape[1]
    Xt = X[::2] * 0.9 + 0.05
    Ht = [np.asarray(h) for h in B.eval(Xt)]
    for tag in range(2):
        true = cp(d, n, 2, 3)
        y, yt = (target(X, 1), target(Xt, 1)) if tag == 0 else (values(true, H)[:, 0], values(true, Ht)[:, 0])
        for ms in (None, "test_error", "cv_error"):
            for early in (False, True):
                for evals in (False, True):
                    sig = "canonical_adapt"
                    with ctx.op("solve", tag, ms, early, evals, pure=[X, y, B, H], sig=sig):
                        s = give(tensap.CanonicalTensorLearning(d, tensap.SquareLossFunction()), X, B, H, y, 1, {
                            "rank_adaptation": True, "rank_adaptation_options": {"max_iterations": 4, "early_stopping": early, "early_stopping_factor": 0.9},
                            "test_error": True, "test_data": [None, yt] if evals else [Xt, yt], "bases_eval_test": list(Ht) if evals else None,
                            "model_selection": ms is not None, "model_selection_options": {"type": ms or "test_error"}, "tolerance": {"on_error": 1e-10, "on_stagnation": 1e-12}}, evals)
                        f, o = s.solve()
                        its = list(o["iterates"])
                        ranks = [int(np.size(g.tensor.core.data)) for g in its]
                        ctx.check(all(b in (a, a + 1) for a, b in zip(ranks, ranks[1:])) and ranks[0] == 1, sig, "ranks %s" % ranks)
                        recorded(ctx, s, f, o, Ht, yt, sig, last=ms is None)
                        descent(ctx, its, H, y, sig)
                        if ms:
                            selected(ctx, f, o, "test_error_iterations" if ms == "test_error" else "error_iterations", sig)
                    ctx.trace()
                    ctx.state(d, tag, ms, early, evals)


# -- forms of one problem, display ---------------------------------------------------------
SCALARS = ("test_error_iterations", "error_iterations", "stagnation_criterion", "test_error", "error", "selected_model_number", "flag", "errors", "stagnation")


def compare(ctx, f, o, f0, o0, sig):
    ctx.close(ref.dense(f.tensor), ref.dense(f0.tensor), sig, msg="function", tol=1e-7)
    for k in SCALARS:
        ctx.same(k in o and np.size(o[k]), k in o0 and np.size(o0[k]), sig, k)
        if k in o and np.size(o[k]):
            ctx.close(np.ravel(np.asarray(o[k], dtype=float)), np.ravel(np.asarray(o0[k], dtype=float)), sig, msg=k, tol=1e-6, scale=1)
    ctx.same(len(o.get("iterates", [])), len(o0.get("iterates", [])), sig, "number of iterates")


def forms(ctx, make, configs, X, y, Xt, yt, sig0, nparam):
    """the same problem in other forms and with display: the same function and the same record; make(opts, X, y) gives a solver"""
    for name, opts in configs.items():
        sig = sig0 + "/" + name

        def solve(change=None, X=X, y=y, **more):
            s = make(dict(opts, **more), X, y)
            if change:
                change(s)
            before = {k: tbt_deepcopy(getattr(s, k)) for k in ("rank", "algorithm", "initialization_type", "rank_adaptation", "rank_adaptation_options", "tolerance", "tree_adaptation_options", "model_selection",
                                                       "linear_model_learning_parameters", "model_selection_options", "test_error", "error_estimation", "store_iterates", "tree_adaptation")}
            with draws(0), rng.patched(choice=last_choice):
                f, o = s.solve()
            return f, o, before, s
        base = None
        with ctx.op("solve", name, pure=[X, y, Xt, yt], sig=sig):
            f0, o0, before, s = solve()
            base = True
            for k, v in before.items():
                now = getattr(s, k)
                ctx.same(repr({a: now.get(a) for a in v} if isinstance(v, dict) else now), repr(v), sig + "/options", "attribute %s of the solver after solve" % k)
        if base is None:
            continue

        def display_all(s):
            s.display = True
            s.alternating_minimization_parameters["display"] = True

        def listed(s):
            l = s.linear_model_learning
            s.linear_model_learning = [tbt_deepcopy(l) for _ in range(nparam)]

        changes = {"display": display_all}
        if "greedy" not in name:
            changes["one linear solver per parameter"] = listed
        for c, g in changes.items():
            with ctx.op("solve", name, c, pure=[X, y, Xt, yt], sig=sig + "/" + c):
                f, o, _, _ = solve(g)
                compare(ctx, f, o, f0, o0, sig + "/" + c)
            ctx.trace()
        with ctx.op("solve", name, "data of a column", pure=[X, y, Xt, yt], sig=sig + "/column"):
            f, o, _, _ = solve(y=y[:, None], test_data=[Xt, yt[:, None]])
            compare(ctx, f, o, f0, o0, sig + "/column")
        ctx.trace()
        z, zt = np.rint(3 * y), np.rint(3 * yt)
        with ctx.op("solve", name, "integer outputs", pure=[X, z, Xt, zt], sig=sig + "/integers"):
            f1, o1, _, _ = solve(y=z, test_data=[Xt, zt])
            f, o, _, _ = solve(y=z.astype(int), test_data=[Xt, zt.astype(int)])
            compare(ctx, f, o, f1, o1, sig + "/integers")
        ctx.trace()
        ctx.state(sig, [int(v) for v in np.ravel(getattr(f0.tensor, "ranks", 0))])


def last_choice(a, size=None, replace=True, p=None):
    a = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
    return a[[i for i in range(len(a)) if p is None or p[i] > 0][-1]]


def tbt_deepcopy(x):
    import copy
    return copy.deepcopy(x)


def run_forms(case, ctx):
    d = len(ref.leaves(tbt.tup(case["t"])))
    X, B, H = setting(d, n=3 if d < 4 else 2, K=4 if d < 4 else 3, drop=5 if d > 2 else 0)
    Xt = X[::2] * 0.9 + 0.05
    y, yt = target(X, 1), target(Xt, 1)
    T, _ = ref.build_tree(tbt.tup(case["t"]), case["num"])
    act = tbt.activity(T, case["act"])
    am = {"max_iterations": 3, "stagnation": 0, "display": False}
    ra = {"max_iterations": 3, "early_stopping": False}
    common = {"test_error": True, "test_data": [Xt, yt], "alternating_minimization_parameters": am, "tolerance": {"on_error": 1e-13, "on_stagnation": 0}}
    configs = {
        "standard": {"initialization_type": "random"}, "canonical start": {"initialization_type": "canonical"}, "selection": {"initialization_type": "random", "model_selection": True},
        "selection cv": {"initialization_type": "random", "model_selection": True, "model_selection_options": {"type": "cv_error"}},
        "adaptation": {"rank_adaptation": True, "rank_adaptation_options": ra}, "adaptation cv": {"rank_adaptation": True, "rank_adaptation_options": ra, "error_estimation": True, "model_selection": True},
        "early stopping": {"rank_adaptation": True, "rank_adaptation_options": dict(ra, early_stopping=True, early_stopping_factor=0.5)},
        "tree": {"rank_adaptation": True, "rank_adaptation_options": ra, "tree_adaptation": True, "tree_adaptation_options": {"tolerance": 1e-9, "max_iterations": 3}},
        "dmrg": {"rank_adaptation": True, "initialization_type": "random", "rank_adaptation_options": {"type": "dmrg"}},
        "dmrg_low_rank": {"rank_adaptation": True, "initialization_type": "random", "rank_adaptation_options": {"type": "dmrg_low_rank", "max_rank": 2}, "tolerance": {"on_error": 1e-6, "on_stagnation": 1e-6}},
    }

    def make(opts, X, y):
        return tree_solver(case, X, B, None, y, 1, dict(common, **opts))
    if d < 3:
        del configs["tree"]
    forms(ctx, make, configs, X, y, Xt, yt, "forms", sum(map(bool, act)))
    # ranks of the active nodes, given in other forms
    rank = pattern(T, act, [3 if d < 4 else 2] * d, 1, 1)
    for r in (rank, np.array(rank), [v for v, a in zip(rank, act) if a] if sum(map(bool, act)) == d else rank):
        with ctx.op("solve", "ranks", type(r).__name__, len(r), pure=[X, y, r], sig="forms/ranks"):
            s = tree_solver(case, X, B, None, y, r, dict(common, initialization_type="random"))
            with draws(0):
                f, o = s.solve()
            check_fun(ctx, f, case, rank, "forms/ranks", X, H)
            ctx.same(repr(s.rank), repr(r), "forms/ranks", "rank attribute")
    L = tensap.DimensionTree.linear(d)
    if ref.tree_key(T) == ref.tree_key(L):
        for con in ("tensor_train", "tensor_train_tucker"):
            want = np.full(L.nb_nodes, True)
            if con == "tensor_train":
                want[np.asarray(L.dim2ind)[1:] - 1] = False
            with ctx.op(con, d, sig="forms/" + con):
                s = getattr(tensap.TreeBasedTensorLearning, con)(d, tensap.SquareLossFunction())
                ctx.same([bool(v) for v in s.is_active_node], [bool(v) for v in want], "forms/" + con, "active nodes")
                ctx.same(ref.tree_key(s.tree), ref.tree_key(L), "forms/" + con, "tree")
                give(s, X, B, None, y, 1, dict(common, initialization_type="random"))
                with draws(0):
                    f, o = s.solve()
                ctx.same([int(v) for v in f.tensor.ranks], [int(v) for v in want], "forms/" + con, "ranks")
                descent(ctx, o["iterates"], H, y, "forms/" + con)
            ctx.trace()


def run_canonical_forms(case, ctx):
    d = case["d"]
    X, B, H = setting(d, drop=5)
    Xt = X[::2] * 0.9 + 0.05
    y, yt = target(X, 1), target(Xt, 1)
    am = {"max_iterations": 3, "stagnation": 0, "display": False}
    common = {"test_error": True, "test_data": [Xt, yt], "alternating_minimization_parameters": am, "tolerance": {"on_error": 1e-13, "on_stagnation": 1e-13}}
    configs = {"rank %d %s" % (r, i): {"rank": r, "initialization_type": i} for r in (1, 2) for i in ("mean", "random", "greedy")}
    configs.update({"selection": {"rank": 2, "initialization_type": "greedy", "model_selection": True}, "greedy": {"rank": 3, "algorithm": "greedy"},
                    "greedy errors": {"rank": 3, "algorithm": "greedy", "linear": {"error_estimation": True}, "error_estimation": True},
                    "adaptation": {"rank_adaptation": True, "rank_adaptation_options": {"max_iterations": 3}},
                    "early stopping": {"rank_adaptation": True, "rank_adaptation_options": {"max_iterations": 3, "early_stopping": True, "early_stopping_factor": 0.5}}})

    def make(opts, X, y):
        return give(tensap.CanonicalTensorLearning(d, tensap.SquareLossFunction()), X, B, None, y, opts.get("rank", 1), dict(common, **opts))
    forms(ctx, make, configs, X, y, Xt, yt, "canonical_forms", d + 1)


# -- corrections ------------------------------------------------------------------------------
def run_correct(case, ctx):
    """rank-one and canonical corrections of a function: the risk does not increase, the ranks increase by the rank of the correction"""
    d = len(ref.leaves(tbt.tup(case["t"])))
    n = 3 if d < 4 else 2
    X, B, H = setting(d, n=n, K=4 if d < 4 else 3)
    T, _ = ref.build_tree(tbt.tup(case["t"]), case["num"])
    act = tbt.activity(T, case["act"])
    y = target(X, 1)
    for loss in ("square", "density"):
        def emp(t):
            return risk(t, H, y) if loss == "square" else float(np.sum(ref.dense(t) ** 2) - 2 * np.mean(values(t, H)))
        for p in (0, 1, 2):
            rank = pattern(T, act, [n] * d, p, 1)
            t = ref.make_tbt(T, [n] * d, rank, act, 4)
            for start in ("function", None):
                for how in (("rank_one", 1), ("canonical", 1), ("canonical", 2)):
                    if loss == "density" and how[0] == "canonical":      # not available for densities
                        continue
                    sig = "correct/%s/%s" % (loss, how[0])
                    f = tensap.FunctionalTensor(tbt_copy(t), list(H)) if start else None
                    with ctx.op("correction", loss, p, start, how, pure=[f, X, y, H, B], sig=sig):
                        s = tensap.TreeBasedTensorLearning(T, act, tensap.SquareLossFunction() if loss == "square" else tensap.DensityL2LossFunction())
                        s.bases, s.bases_eval, s.display = B, list(H), False
                        s.training_data = [X, y] if loss == "square" else X
                        s.rank, s.tolerance["on_error"] = np.array(rank), -np.inf
                        with draws(0):
                            g = s.rank_one_correction(f) if how[0] == "rank_one" else s.canonical_correction(f, how[1])
                        if tbt.structure(ctx, g, sig) is not None:
                            a = emp(t) if start else (float(np.mean(y ** 2)) if loss == "square" else 0.0)
                            ctx.check(emp(g) <= a + 1e-9 * (1 + abs(a)), sig, "the correction increases the risk from %.10g to %.10g" % (a, emp(g)))
                            r0 = rank if start else [0] * len(rank)
                            ctx.check(all(int(u) <= int(v) + how[1] for u, v in zip(g.ranks, r0)), sig, "ranks %s then %s" % (list(r0), list(map(int, g.ranks))))
                    ctx.trace()
                    ctx.state(case["t"], case["act"], loss, p, start, how)
        sig = "correct/adaptation/" + loss
        if loss == "density":
            for k in (0, 1):
                with ctx.op("rank adaptation of a density", k, pure=[X, B], sig=sig):
                    s = tensap.TreeBasedTensorLearning(T, act, tensap.DensityL2LossFunction())
                    s.bases, s.display, s.training_data = B, False, X
                    s.rank, s.tolerance["on_error"], s.initialization_type = 1, -np.inf, "random"
                    s.rank_adaptation, s.rank_adaptation_options["max_iterations"] = True, 4
                    s.rank_adaptation_options["rank_one_correction"] = bool(k)
                    s.test_error, s.test_data = True, X
                    with draws(0):
                        f, o = s.solve()
                    its = list(o["iterates"])
                    check_fun(ctx, f, case, None, sig, X, H)
                    ctx.close(np.ravel(o["test_error_iterations"]), [emp(g.tensor) for g in its], sig, msg="recorded risks", scale=1)
                    m = np.mean(np.stack([np.asarray(ref_outer([h[i] for h in H])) for i in range(len(X))]), 0)
                    ctx.check(all(emp(g.tensor) >= -np.sum(m ** 2) - 1e-9 for g in its), sig, "risk below the least one")
                    ctx.close(ref.dense(f.tensor), ref.dense(its[-1].tensor), sig, msg="last iterate")
                ctx.trace()


# -- ranks ------------------------------------------------------------------------------------
def run_admissible(case, ctx):
    """reduction of a proposed increase of the ranks to an admissible one; enrichment of a tensor to it"""
    T, _ = ref.build_tree(tbt.tup(case["t"]), case["num"])
    act = tbt.activity(T, case["act"])
    d = len(T.dim2ind)
    shape = [2, 3, 2][:d] if d < 4 else [2] * d
    root = int(T.root)
    free = [k for k in range(T.nb_nodes) if act[k] and k + 1 != root]
    make = tensap.TreeBasedTensorLearning.make_ranks_admissible
    start = []
    for v in itertools.product((1, 2), repeat=len(free)):
        r = [0] * T.nb_nodes
        r[root - 1] = 1
        for k, x in zip(free, v):
            r[k] = x
        t = ref.make_tbt(T, shape, r, act, 2)
        if t.is_admissible_rank(np.array(r)):
            start.append((r, t))
    sig = "admissible"
    for r, t in start:
        for add in itertools.product((0, 1) if len(free) > 3 else (0, 1, 2), repeat=len(free)):
            new = np.array(r)
            new[free] += np.array(add, dtype=int)
            for k in (0, 1):
                ctx.trace()
                ctx.state(case["t"], case["act"], tuple(r), add, k)
                with ctx.op("make_ranks_admissible", r, list(new), k, pure=[t], sig=sig), draws(k):
                    got, nodes = make(t, np.array(new))
                    got = [int(v) for v in got]
                    ctx.check(bool(t.is_admissible_rank(np.array(got))), sig, "%s from %s is not admissible" % (got, r))
                    ctx.check(all(a <= b <= c for a, b, c in zip(r, got, new)), sig, "%s is not between %s and %s" % (got, r, list(new)))
                    ctx.same(sorted(int(v) for v in nodes), [i + 1 for i in range(len(r)) if got[i] != r[i]], sig, "increased nodes")
                    # as few increases as possible are dropped
                    cap = [min(int(new[i]), shape[list(T.dim2ind).index(i + 1)]) if T.is_leaf[i] else int(new[i]) for i in range(len(r))]
                    inc = [i for i in range(len(r)) if cap[i] > r[i]]
                    few = next(n for n in range(len(inc) + 1) for drop in itertools.combinations(inc, n)
                               if t.is_admissible_rank(np.array([r[i] if i in drop else cap[i] for i in range(len(r))])))
                    ctx.same(len(inc) - sum(got[i] != r[i] for i in range(len(r))), few, sig, "number of increases dropped")
                    u = tensap.TreeBasedTensorLearning.enriched_edges_to_ranks_random(tbt_copy(t), np.array(got))
                    if tbt.structure(ctx, u, sig + "/enriched") is not None:
                        ctx.same([int(v) for v in u.ranks], got, sig + "/enriched", "ranks")
                        ctx.check(np.all(np.isfinite(ref.dense(u))), sig + "/enriched")
