"""Linear learning: minimisers, cross-validation errors by refitting, selection along paths, densities, losses."""
import contextlib
import itertools

import numpy as np
import tensap

from .. import ref, rng

ID = "P23"
BOUNDS = {
    "quick": "least squares: every 3x1, 3x2 matrix over {-1,0,1} and 4x2 over {0,1}, monomial designs on every multiset of 2..5 points of {-1,0,1,2} with 1..4 "
             "functions; both solvers, weights in 3 forms, one or two outputs, separate or shared coefficients, with and without a basis; leave-one-out and k-fold "
             "errors with 2, 3 and N folds, every order of the samples drawn for up to 4 samples (5: 24 orders), correction with and without Gram matrix; "
             "selection: every path of 1..3 supports of 3 functions (259 paths) on 6 designs; l0 / l1 / l2 regularisation, errors of sparse solutions kept without selection; residual errors; densities: every multiset of 2..5 points of 4 with 1..3 functions, "
             "every path of 1..3 supports; losses on every combination of shapes",
    "thorough": "as quick with every 4x2 matrix over {-1,0,1}, multisets of up to 6 points of 5 and every order of 5 samples",
}
ASSUMPTIONS = ["the path of supports of l1 regularisation is the one of sklearn's LassoLars; cross-validation errors are specified for designs whose training parts have full column rank",
               "density estimation uses orthonormal functions; losses that need tensorflow (not installed) are not covered"]


def monomials(x, p):
    return np.vander(np.asarray(x, dtype=float), p, increasing=True)


def designs(tier):
    pts = (-1.0, 0.0, 1.0, 2.0) if tier == "quick" else (-1.0, 0.0, 1.0, 2.0, 0.5)
    for N in range(2, 6 if tier == "quick" else 7):
        for x in itertools.combinations_with_replacement(pts, N):
            for P in range(1, 5):
                if P <= N + 1:
                    yield "poly", [float(v) for v in x], P


def cases(tier):
    for _, x, P in designs(tier):
        yield {"kind": "ols", "x": x, "P": P, "full": tier != "quick"}
    for sh, v in (((3, 1), (-1, 0, 1)), ((3, 2), (-1, 0, 1)), ((4, 2), (0, 1) if tier == "quick" else (-1, 0, 1))):
        for head in itertools.product(v, repeat=2 if sh[1] > 1 else 1):
            yield {"kind": "matrices", "sh": sh, "v": v, "head": head}
    for d in range(6):
        for m in range(1, 4):
            yield {"kind": "path", "d": d, "m": m}
    for d in range(6):
        for reg in ("l0", "l1", "l2"):
            yield {"kind": "reg", "d": d, "reg": reg}
    for N in range(2, 6 if tier == "quick" else 7):
        for x in itertools.combinations_with_replacement((-0.8, -0.1, 0.3, 0.9), N):
            for P in range(1, 4):
                yield {"kind": "density", "x": list(x), "P": P}
    for d in range(3):
        for m in range(1, 4):
            yield {"kind": "density_path", "d": d, "m": m}
    yield {"kind": "loss"}
    yield {"kind": "history"}


def run(case, ctx):
    with np.errstate(all="ignore"):
        globals()["run_" + case["kind"]](case, ctx)


# -- reference ---------------------------------------------------------------
def rank(A):
    return int(np.linalg.matrix_rank(A)) if A.size else 0


def good(A, folds=None):
    """well-conditioned full column rank, also without each fold"""
    if A.shape[0] < A.shape[1] or rank(A) < A.shape[1] or np.linalg.cond(A) > 1e4:
        return False
    for t in folds or []:
        B = np.delete(A, t, 0)
        if B.shape[0] < A.shape[1] or rank(B) < A.shape[1] or np.linalg.cond(B) > 1e4:
            return False
    return True


def refit(A, y, folds):
    """residuals on each fold of the fit without it"""
    d = np.zeros(np.shape(y))
    for t in folds:
        B, z = np.delete(A, t, 0), np.delete(y, t, 0)
        d[t] = y[t] - A[t] @ np.linalg.lstsq(B, z, rcond=None)[0]
    return d


def partitions(N, k):
    """partitions of range(N) in k folds of sizes differing by at most one"""
    sizes = [N // k + (i < N % k) for i in range(k)]

    def rec(left, sizes):
        if not sizes:
            yield []
            return
        for s in sorted(set(sizes)):
            rest = list(sizes)
            rest.remove(s)
            for c in itertools.combinations(left[1:], s - 1):
                t = (left[0],) + c
                for p in rec([i for i in left if i not in t], rest):
                    yield [list(t)] + p
    seen = set()
    for p in rec(list(range(N)), sizes):
        key = tuple(sorted(map(tuple, p)))
        if key not in seen:
            seen.add(key)
            yield p


def corr(A, correction, gram):
    N, P = A.shape
    if not correction or N == P:
        return 1.0
    C = np.linalg.inv(A.T @ A)
    return (N / (N - P)) * (1 + np.trace(C @ (np.eye(P) if gram is None else gram)))


def cv(A, y, folds, correction, gram=None):
    """relative (corrected) cross-validation error, residuals"""
    d = refit(A, y, folds)
    e = np.mean([np.mean(d[t] ** 2, 0) for t in folds], 0)
    return np.sqrt(e / np.mean(y ** 2, 0) * corr(A, correction, gram)), d


class Shuffler:
    """stands for the global random state: permutes by a given order of ranks"""

    def __init__(self, order):
        self.order = list(order)

    def permutation(self, n):
        n = np.arange(n) if np.ndim(n) == 0 else np.array(n)
        return n[[i for i in self.order if i < len(n)]] if len(n) <= len(self.order) else n

    def shuffle(self, x):
        x[:] = np.asarray(x)[[i for i in self.order if i < len(x)]] if len(x) <= len(self.order) else x

    def __getattr__(self, name):
        raise AssertionError("unexpected draw: " + name)


@contextlib.contextmanager
def shuffled(order):
    s = Shuffler(order)
    old = np.random.mtrand._rand
    np.random.mtrand._rand = s
    try:
        with rng.patched(permutation=s.permutation, shuffle=s.shuffle):
            yield
    finally:
        np.random.mtrand._rand = old


def ys(N, t=0):
    yield "1d", np.round(3 * ref.gen((N,), 5 + t), 2) + 0.5
    yield "column", np.round(3 * ref.gen((N, 1), 7 + t), 2)
    yield "two", np.round(3 * ref.gen((N, 2), 9 + t), 2) + 1
    yield "list", np.round(3 * ref.gen((N,), 11 + t), 2)


def solver(A=None, y=None, **kw):
    s = tensap.LinearModelLearningSquareLoss(kw.pop("weights", None))
    s.basis_eval = A
    s.training_data = [None, y]
    for k, v in kw.items():
        setattr(s, k, v)
    return s


def minimiser(ctx, A, y, sol, sig, msg, w=None):
    """sol minimises the (weighted) risk"""
    W = np.ones(A.shape[0]) if w is None else np.asarray(w, dtype=float)
    S = np.sqrt(W)[:, None]
    y2, s2 = np.reshape(y, (len(A), -1)), np.reshape(sol, (A.shape[1], -1))
    best = np.linalg.lstsq(S * A, S * y2, rcond=None)[0]
    r = np.sum((S * (A @ s2 - y2)) ** 2, 0)
    rb = np.sum((S * (A @ best - y2)) ** 2, 0)
    ctx.close(np.sqrt(r), np.sqrt(rb), sig, msg=msg + ": risk", scale=max(1.0, np.max(np.abs(S * y2))), tol=1e-7)
    if good(S * A):
        ctx.close(s2, best, sig, msg=msg + ": coefficients", scale=max(1.0, np.max(np.abs(best))), tol=1e-7)


# -- least squares ------------------------------------------------------------
def run_matrices(case, ctx):
    sh, v, head = tuple(case["sh"]), case["v"], list(case["head"])
    for rest in itertools.product(v, repeat=sh[0] * sh[1] - len(head)):
        A = np.array(head + list(rest), dtype=float).reshape(sh)
        if not np.any(A):
            continue
        ols(ctx, A, None, 0)
        errors(ctx, A, orders=1)
        ctx.state(A.tobytes())


def run_ols(case, ctx):
    x, P = np.array(case["x"]), case["P"]
    A = monomials(x, P)
    ols(ctx, A, x, 1)
    errors(ctx, A, orders=24 if case["full"] or len(x) < 5 else 4)
    ctx.state(case["x"], P)


def basis_of(P):
    return tensap.PolynomialFunctionalBasis(tensap.CanonicalPolynomials(tensap.UniformRandomVariable(-1, 1)), range(P))


def ols(ctx, A, x, deep):
    N, P = A.shape
    ws = [None] + ([[1.0, 2.0, 0.5, 3.0, 1.0, 0.25][:N], np.array([4.0, 1.0, 1.0, 2.0, 0.5, 1.0][:N]), np.full(N, 2.0)] if deep else [np.array([1.0, 2.0, 0.5, 3.0][:N])])
    for name, y in ys(N):
        for ls in ("qr", "solve"):
            for w in ws:
                sig = "ols/" + ls + ("" if w is None else "/weights")
                with ctx.op("solve", name, ls, None if w is None else list(w), pure=[A, y], sig=sig):
                    s = solver(A, y, linear_solver=ls, weights=w, shared_coefficients=name != "two")
                    sol, out = s.solve()
                    ctx.same(np.shape(sol), (P,) + np.shape(y)[1:], sig, "shape")
                    minimiser(ctx, A, y, sol, sig, name, w)
                ctx.trace()
    if x is None:
        return
    B = basis_of(P)
    for name, y in ys(N, 1):
        data = [x.reshape(-1, 1), y]
        for w in ws[:2]:
            sig = "ols/basis"
            with ctx.op("solve", "basis", name, pure=[B, data], sig=sig):
                s = tensap.LinearModelLearningSquareLoss(w)
                s.basis, s.training_data, s.shared_coefficients = B, data, name != "two"
                s.test_error, s.test_data = True, [np.array([[0.3], [0.7], [-0.2]]), ref.gen((3,) + np.shape(y)[1:], 3)]
                f, out = s.solve()
                c = np.reshape(f.data, (P, -1))
                minimiser(ctx, A, y, c, sig, name, w)
                Z = np.array([0.3, 0.7, -0.2])
                v = monomials(Z, P) @ c
                ctx.close(np.reshape(f.eval(Z), (3, -1)), v, sig, msg="function", scale=np.max(np.abs(v)) + 1)
                t = np.reshape(s.test_data[1], (3, -1))
                ctx.close(np.ravel(out["test_error"]), np.sqrt(np.sum((v - t) ** 2, 0) / np.sum(t ** 2, 0)), sig + "/test_error", scale=np.max(np.abs(v)) + 1)
            ctx.trace()
    for D in (1, 2):                       # coefficients shared by the outputs
        A3 = np.stack([A * (1 + d) + 0.5 * d for d in range(D)], 2)
        yD = np.round(3 * ref.gen((N, D), 21), 2)
        flat = np.transpose(A3, [0, 2, 1]).reshape(-1, P, order="F")
        for y in [yD] + ([yD[:, 0]] if D == 1 else []):
            for ls in ("qr", "solve"):
                sig = "ols/shared"
                with ctx.op("solve", "shared", D, ls, pure=[A3, y], sig=sig):
                    sol, out = solver(A3, y, linear_solver=ls).solve()
                    ctx.same(np.size(sol), P, sig)
                    minimiser(ctx, flat, yD.reshape(-1, order="F"), sol, sig, "shared")
                folds = [[i] for i in range(N * D)]
                if good(flat, folds):
                    with ctx.op("error", "shared", D, ls, pure=[A3, y], sig=sig + "/error"):
                        _, out = solver(A3, y, linear_solver=ls, error_estimation=True).solve()
                        e, d = cv(flat, yD.reshape(-1, order="F"), folds, True)
                        ctx.close(float(np.ravel(out["error"])[0]), e, sig + "/error", scale=e + 1, tol=1e-7)
                ctx.trace()


def errors(ctx, A, orders):
    N, P = A.shape
    if not good(A):
        return
    loo = [[i] for i in range(N)]
    grams = [None, np.eye(P) + 0.3 * np.ones((P, P))]
    for name, y in ys(N, 2):
        for ls in ("qr", "solve"):
            for correction, gram in ((False, None), (True, None), (True, grams[1])):
                opt = {"correction": correction, **({} if gram is None else {"gram_matrix": gram})}
                sig = "leave_one_out/" + ls
                if good(A, loo) or N <= P:
                    with ctx.op("leave_out", name, correction, gram is not None, pure=[A, y, opt], sig=sig):
                        s = solver(A, y, linear_solver=ls, error_estimation=True, error_estimation_options=dict(opt), shared_coefficients=name != "two")
                        sol, out = s.solve()
                        if N <= P:
                            ctx.check(np.all(np.isinf(out["error"])), sig, "error without enough samples")
                        else:
                            e, d = cv(A, y, loo, correction, gram)
                            ctx.close(np.ravel(out["error"]), np.ravel(e), sig, msg="error", scale=np.max(e) + 1, tol=1e-7)
                            ctx.close(np.reshape(out["delta"], d.shape), d, sig, msg="residuals", scale=np.max(np.abs(d)) + 1, tol=1e-7)
                        minimiser(ctx, A, y, sol, sig, name)
                    ctx.trace()
        kfolds(ctx, A, name, y, orders)
        for ls in ("qr", "solve"):
            with ctx.op("residuals", name, ls, pure=[A, y], sig="residuals"):
                sol, out = solver(A, y, linear_solver=ls, error_estimation=True, error_estimation_type="residuals", shared_coefficients=name != "two").solve()
                r = y - A @ np.reshape(sol, (P,) + np.shape(y)[1:])
                ctx.close(np.reshape(out["delta"], np.shape(y)), r, "residuals", scale=np.max(np.abs(y)))
                ctx.close(np.ravel(out["error"]), np.ravel(np.mean(r ** 2, 0) / np.mean(y ** 2, 0)), "residuals", scale=1.0)
    w = np.array([1.0, 2.0, 0.5, 3.0, 1.0, 0.25][:N])
    S = np.sqrt(w)[:, None]
    if good(S * A, loo):
        with ctx.op("leave_out", "weights", sig="leave_one_out/weights"):
            y = ref.gen((N,), 3)
            _, out = solver(A, y, weights=w, error_estimation=True, error_estimation_options={"correction": False}).solve()
            e, d = cv(S * A, S[:, 0] * y, loo, False)
            ctx.close(float(np.ravel(out["error"])[0]), e, "leave_one_out/weights", scale=e + 1, tol=1e-7)


def kfolds(ctx, A, name, y, orders):
    N, P = A.shape
    for k in (2, 3, None, N):
        kk = min(10, N) if k is None else k
        if kk > N or kk < 2:
            continue
        parts = [[[i] for i in range(N)]] if kk == N else list(partitions(N, kk))
        if not all(good(A, p) for p in parts):
            continue
        if N * (1 - 1 / kk) < P:
            continue
        allo = list(itertools.permutations(range(N)))
        step = max(1, len(allo) // orders)
        for o in allo[::step]:
            for ls, correction in (("qr", True), ("solve", False)):
                sig = "k_fold"
                opt = {"correction": correction, **({} if k is None else {"number_of_folds": k})}
                with ctx.op("k_fold", name, k, list(o), ls, pure=[A, y], sig=sig):
                    with shuffled(o):
                        s = solver(A, y, linear_solver=ls, error_estimation=True, error_estimation_type="k_fold", error_estimation_options=opt,
                                   shared_coefficients=name != "two")
                        sol, out = s.solve()
                    hit = False
                    for p in parts:
                        e, d = cv(A, y, p, correction)
                        if np.allclose(np.ravel(out["error"]), np.ravel(e), rtol=1e-6, atol=1e-9) and np.allclose(np.reshape(out["delta"], d.shape), d, rtol=1e-6, atol=1e-7):
                            hit = True
                            ctx.outcomes.add(("fold", N, kk, tuple(map(tuple, p))))
                            break
                    ctx.comparisons += 1
                    if not hit:
                        ctx.fail(sig, "not the error of refitting for any split in %d folds" % kk, got=str(out["error"]), want=str(cv(A, y, parts[0], correction)[0]))
                    minimiser(ctx, A, y, sol, sig, name)
                ctx.trace()


# -- selection ------------------------------------------------------------------
DES = [(6, lambda N: monomials([-1.0, 0.0, 1.0, 2.0, 0.5, -0.5], 3)), (5, lambda N: monomials([-1.0, 0.0, 1.0, 2.0, 0.5], 3)), (4, lambda N: monomials([-1.0, 0.0, 1.0, 2.0], 3)),
       (3, lambda N: monomials([-1.0, 0.0, 1.0], 3)), (5, lambda N: np.array([[1.0, 0, 0], [1, 1, 0], [0, 1, 1], [1, 0, 1], [2, 1, 0]])),
       (4, lambda N: np.array([[1.0, 0, 1], [0, 1, 1], [0, 1, -1], [0, 1, 2]]))]


def path_ys(A, t):
    N = A.shape[0]
    yield A[:, 0] * 2 + 0.1 * ref.gen((N,), t)
    yield A[:, 0] - A[:, 2] + 0.05 * ref.gen((N,), t + 1)
    yield ref.gen((N,), t + 2)


def paths(P, m):
    sup = [np.array(s, dtype=bool) for s in itertools.product((0, 1), repeat=P) if any(s)]
    for c in itertools.permutations(sup, m):
        yield np.column_stack(c)
    if m == 3:
        yield np.column_stack([sup[0], sup[2], sup[0], sup[2]])
        yield np.column_stack([np.zeros(P, bool), sup[1], sup[6]])
        yield np.zeros((P, 2), bool)


def undefined(A, folds):
    return not good(A, folds)


def selection(ctx, A, y, sol, out, cand, sig, etype, k, opts, stop=False):
    """sol is the best of the candidate supports"""
    N = A.shape[0]
    gram = opts.get("gram_matrix")
    errs = []
    for c in cand:
        B = A[:, c]
        G = None if gram is None else gram[np.ix_(c, c)]
        if etype == "leave_out" or k == N:
            if N - 1 < B.shape[1]:
                errs.append([np.inf])
            elif not good(B):
                return
            elif good(B, [[i] for i in range(N)]):
                errs.append([float(cv(B, y, [[i] for i in range(N)], opts["correction"], G)[0])])
            else:
                errs.append(None)
        elif N * (1 - 1 / k) < B.shape[1]:
            errs.append([np.inf])
        elif all(good(B, p) for p in partitions(N, k)):
            errs.append([float(cv(B, y, p, opts["correction"], G)[0]) for p in partitions(N, k)])
        else:
            return
    path = np.asarray(out["pattern_path"]) != 0
    ctx.same(path.T.tolist(), [c.tolist() for c in cand], sig, "candidate supports")
    got = np.ravel(out["error_path"])
    ctx.same(len(got), len(cand), sig, "errors of the candidates")
    end = len(cand)
    for i, (e, want) in enumerate(zip(got, errs)):
        if want is not None:
            ok = any((np.isinf(w) and np.isinf(e)) or np.isclose(e, w, rtol=1e-6, atol=1e-9) for w in want)
            ctx.comparisons += 1
            if not ok:
                ctx.fail(sig, "error of candidate %d is not that of refitting" % i, got=float(e), want=str(want[:4]))
                return
        if stop and i > 1 and e > 2 * got[i - 1]:
            end = i + 1
            ctx.check(np.all(np.isinf(got[i + 1:])), sig + "/stop", "candidates after the increase of the error")
            break
    ind = int(np.ravel(out["ind"])[0])
    fin = [e for e, w in zip(got[:end], errs) if w is not None and not np.isnan(e)]
    if fin:
        ctx.check(not np.isnan(out["error"]) and float(np.ravel(out["error"])[0]) <= min(fin) * (1 + 1e-9), sig, "not the smallest estimated error")
    if errs[ind] is None and any(w is not None and not np.isinf(w[0]) for w in errs[:end]):
        ctx.fail(sig, "selected a support whose error is not defined")
    ctx.same(np.ravel(out["pattern"]).astype(bool).tolist(), cand[ind].tolist(), sig, "pattern")
    c = cand[ind]
    ctx.close(np.ravel(sol)[~c], np.zeros(int(np.sum(~c))), sig, msg="zero out of the support")
    minimiser(ctx, A[:, c], y, np.ravel(sol)[c], sig, "selected")
    ctx.close(np.ravel(out["optimal_solution"]), np.ravel(sol), sig)
    for i, c in enumerate(cand):
        if good(A[:, c]):
            ctx.close(np.ravel(out["solution_path_OLS"][c, i]), np.linalg.lstsq(A[:, c], y, rcond=None)[0], sig, msg="solutions of the path", scale=np.max(np.abs(y)) + 1, tol=1e-6)


def uniq(path, N):
    out = []
    for c in np.asarray(path).T != 0:
        if np.any(c) and np.sum(c) <= N and not any(np.array_equal(c, d) for d in out):
            out.append(c)
    return out


def run_path(case, ctx):
    A = DES[case["d"]][1](0)
    N, P = A.shape
    for n, path in enumerate(paths(P, case["m"])):
        cand = uniq(path, N)
        for t, y in enumerate(path_ys(A, case["d"])):
            for ls in ("qr", "solve") if n % 4 == 0 else ("qr",):
                opts = [("leave_out", None, {"correction": True}), ("leave_out", None, {"correction": False})]
                if n % 3 == 0:
                    opts.append(("leave_out", None, {"correction": True, "gram_matrix": np.eye(P) + 0.3}))
                    opts += [("k_fold", 2, {"correction": False, "number_of_folds": 2}), ("k_fold", N, {"correction": False, "number_of_folds": N})]
                for etype, k, opt in opts:
                    for stop in (False, True):
                        sig = "basis_adaptation" + ("/" + etype if etype != "leave_out" else "") + ("/gram" if "gram_matrix" in opt else "")
                        yy = y if (n + t) % 2 else y.reshape(-1, 1)
                        with ctx.op("basis_adaptation", path.astype(int).tolist(), etype, ls, stop, pure=[A, yy, path, opt], sig=sig):
                            s = solver(A, yy, linear_solver=ls, basis_adaptation=True, error_estimation_type=etype, error_estimation_options=dict(opt))
                            s.basis_adaptation_path = path
                            s.model_selection_options = {"stop_if_error_increase": stop}
                            with shuffled([(i * 2 + n) % N for i in range(N)] if N % 2 else range(N)):
                                sol, out = s.solve()
                            if cand:
                                selection(ctx, A, y, sol, out, cand, sig, etype, k, opt, stop)
                            else:
                                minimiser(ctx, A, y, sol, sig, "empty path")
                        ctx.trace()
        ctx.state(case["d"], path.tobytes())
    if case["m"] == 1:                  # default path, several outputs
        for t in range(3):
            Y = np.column_stack([y for y in path_ys(A, t)])
            cand = uniq(np.triu(np.ones((P, P))), N)
            with ctx.op("basis_adaptation", "default path, outputs", pure=[A, Y], sig="basis_adaptation/outputs"):
                s = solver(A, Y, basis_adaptation=True, shared_coefficients=False)
                data = s.training_data
                sol, out = s.solve()
                ctx.same(sol.shape, (P, Y.shape[1]), "basis_adaptation/outputs")
                for j in range(Y.shape[1]):
                    selection(ctx, A, Y[:, j], sol[:, j], out["outputs"][j], cand, "basis_adaptation/outputs", "leave_out", None, {"correction": True})
                    ctx.same(float(out["error"][j]), float(out["outputs"][j]["error"]), "basis_adaptation/outputs")
                ctx.check(data[1] is Y, "basis_adaptation/outputs", "training data replaced")
            ctx.trace()


def run_reg(case, ctx):
    A = DES[case["d"]][1](0)
    N, P = A.shape
    reg = case["reg"]
    sig = "regularization/" + reg
    for t, y in enumerate(list(path_ys(A, 0)) + list(path_ys(A, 5))):
        for yy in (y, y.reshape(-1, 1)):
            for ls in ("qr", "solve"):
                for alpha in (0.0, 0.05, 0.5):
                    if reg == "l0" and alpha:
                        continue
                    opt = {"alpha": alpha}
                    for select in (True, False):
                        with ctx.op("regularization", reg, alpha, select, ls, pure=[A, yy, opt], sig=sig):
                            s = solver(A, yy, linear_solver=ls, regularization=True, regularization_type=reg, regularization_options=opt, model_selection=select)
                            sol, out = s.solve()
                            ctx.same(np.size(sol), P, sig)
                            if reg == "l2":
                                want = np.linalg.solve(A.T @ A + alpha * np.eye(P), A.T @ y) if alpha or good(A) else None
                                if want is not None:
                                    ctx.close(np.ravel(sol), want, sig, msg="ridge minimiser", scale=np.max(np.abs(want)) + 1, tol=1e-6)
                            elif select:
                                check_reg_path(ctx, A, y, sol, out, reg, alpha, sig)
                            elif reg == "l1":
                                g = A.T @ (y - A @ np.ravel(sol)) / N
                                ctx.check(np.max(np.abs(g)) <= alpha + 1e-6, sig, "not a lasso minimiser", got=float(np.max(np.abs(g))))
                                sup = np.abs(np.ravel(sol)) > 1e-12
                                ctx.close(g[sup], alpha * np.sign(np.ravel(sol))[sup], sig, msg="lasso stationarity", tol=1e-6)
                            elif good(A) and N >= P:
                                minimiser(ctx, A, y, sol, sig, "end of the l0 path")
                        ctx.trace()
                    ctx.state(case["d"], reg, t, alpha, ls)
    for t, y in enumerate(list(path_ys(A, 0)) + list(path_ys(A, 5))):
        for ls in ("qr", "solve"):
            for setting in ((0.0,) if reg == "l2" else (1e-9, 0.05, 0.3, 0.7) if reg == "l0" else ()):
                for etype, k, opt in (("leave_out", None, {"correction": True}), ("leave_out", None, {"correction": False}), ("leave_out", None, {"correction": True, "gram_matrix": np.eye(P) + 0.3}),
                                      ("k_fold", N, {"correction": True, "number_of_folds": N}), ("k_fold", 2, {"correction": False, "number_of_folds": 2}),
                                      ("residuals", None, {"correction": True})):
                    regopt = {"tol": setting * float(y @ y)} if reg == "l0" else {"alpha": setting}
                    es = sig + "/error"
                    with ctx.op("error without selection", reg, setting, ls, etype, pure=[A, y, opt, regopt], sig=es):
                        s = solver(A, y, linear_solver=ls, regularization=True, regularization_type=reg, regularization_options=regopt, model_selection=False,
                                   error_estimation=True, error_estimation_type=etype, error_estimation_options=opt)
                        with shuffled(range(N)):
                            sol, out = s.solve()
                        sol = np.ravel(sol)
                        S = np.nonzero(sol)[0]
                        ctx.check(s.error_estimation_options is opt, es, "options replaced")
                        if etype == "residuals":
                            ctx.close(np.ravel(out["delta"]), y - A @ sol, es, msg="residuals")
                            ctx.close(float(np.ravel(out["error"])[0]), np.mean((y - A @ sol) ** 2) / np.mean(y ** 2), es, msg="residual error")
                        if not len(S) or not good(A[:, S]):
                            continue
                        minimiser(ctx, A[:, S], y, sol[S], es, "on its support")
                        gram = opt.get("gram_matrix")
                        folds = [[i] for i in range(N)]
                        if etype == "residuals" or N - 1 < len(S):
                            continue
                        parts = list(partitions(N, 2)) if k == 2 else [folds]
                        if not all(good(A[:, S], p) for p in parts) or (k == 2 and N / 2 < len(S)):
                            continue
                        hits = [cv(A[:, S], y, p, opt["correction"], None if gram is None else gram[np.ix_(S, S)]) for p in parts]
                        ctx.check(any(np.allclose(float(np.ravel(out["error"])[0]), e, rtol=1e-6, atol=1e-8) and np.allclose(np.ravel(out["delta"]), d, rtol=1e-6, atol=1e-7)
                                      for e, d in hits), es, "not the error of refitting on the support", got=str(out["error"]), want=str(hits[0][0]))
                        ctx.outcomes.add(("support", len(S), etype))
                    ctx.trace()
                    ctx.state(case["d"], "error", reg, t, setting, ls, etype)
    for opts in ({}, {"non_zero_blocks": [[0], [1, 2]]}):
        Y = np.column_stack(list(path_ys(A, 1)))
        with ctx.op("regularization", reg, "outputs", opts, pure=[A, Y], sig=sig + "/outputs"):
            s = solver(A, Y, regularization=True, regularization_type=reg, regularization_options={"alpha": 0.01} if reg != "l0" else {}, shared_coefficients=False, options=opts)
            sol, out = s.solve()
            ctx.same(sol.shape, (P, Y.shape[1]), sig + "/outputs")
            for j in range(Y.shape[1]):
                s1 = solver(A, Y[:, j], regularization=True, regularization_type=reg, regularization_options={"alpha": 0.01} if reg != "l0" else {}, options=opts)
                ctx.close(sol[:, j], np.ravel(s1.solve()[0]), sig + "/outputs", msg="outputs fitted separately", tol=1e-8)
                if opts and reg != "l2" and "pattern_path" in out["outputs"][j]:
                    pp = np.asarray(out["outputs"][j]["pattern_path"]) != 0
                    ctx.check(np.all([np.all(np.any(pp[b, :], 0)) for b in opts["non_zero_blocks"]]), sig + "/blocks", "support without a function of each block")
        ctx.trace()


def check_reg_path(ctx, A, y, sol, out, reg, alpha, sig):
    N, P = A.shape
    if reg == "l1":
        from sklearn import linear_model
        lars = linear_model.LassoLars(alpha=alpha, fit_intercept=False)
        lars.fit(A, y)
        path = lars.coef_path_
        if np.linalg.norm(path) == 0 or path.shape[1] < 2:
            return
        cand = uniq(path, N)
    else:
        cand = [c for c in (np.asarray(out["pattern_path"]) != 0).T]
        B = A / np.linalg.norm(A, axis=0)
        S = []
        for c in cand:
            new = [i for i in np.nonzero(c)[0] if i not in S]
            ctx.check(len(new) == 1 and set(S) <= set(np.nonzero(c)[0]), sig, "supports of the l0 path are not nested")
            r = y - (B[:, S] @ np.linalg.lstsq(B[:, S], y, rcond=None)[0] if S else 0)
            q = np.abs(B.T @ r)
            ctx.check(q[new[0]] >= np.max(q) * (1 - 1e-7), sig, "l0 path is not greedy")
            S = list(np.nonzero(c)[0])
    selection(ctx, A, y, sol, out, cand, sig, "leave_out", None, {"correction": True})


# -- density -----------------------------------------------------------------------
def legendre(P):
    return tensap.PolynomialFunctionalBasis(tensap.LegendrePolynomials(), range(P))


def dens(A, idx, b, c=None):
    f = np.mean(A[idx], 0) - b
    return f if c is None else np.where(c, f, 0.0)


def risk(A, f, b, rows):
    return float(f @ f - 2 * np.mean(A[rows] @ f) + 2 * f @ b)


def loo(A, b, c=None):
    N = A.shape[0]
    e = 0.0
    for i in range(N):
        f = dens(A, [j for j in range(N) if j != i], b, c)
        e += risk(A, f, b, [i]) / N
    return e


def run_density(case, ctx):
    x, P = np.array(case["x"]), case["P"]
    B = legendre(P)
    A = np.asarray(B.eval(x.reshape(-1, 1)))
    N = len(x)
    for bb in (None, ref.gen((P,), 3)):
        b = np.zeros(P) if bb is None else bb
        forms = [("array", x.reshape(-1, 1), None), ("evaluations", [None, bb] if bb is not None else [None], A), ("3d", [None, bb] if bb is not None else [None], A[:, :, None])]
        if bb is None:
            forms += [("list", [x.reshape(-1, 1)], None), ("pair", [None, []], A)]
        else:
            forms = forms[1:] + [("pair", [x.reshape(-1, 1), bb], None)]
        for name, data, E in forms:
            for err in (False, True):
                sig = "density"
                with ctx.op("solve", name, err, bb is not None, pure=[data, E, B], sig=sig):
                    s = tensap.LinearModelLearningDensityL2()
                    s.training_data, s.basis_eval, s.error_estimation = data, E, err
                    if E is None:
                        s.basis = B
                    sol, out = s.solve()
                    want = np.mean(A, 0) - b
                    ctx.close(np.ravel(sol.data if E is None else sol), want, sig, msg="empirical means", scale=np.max(np.abs(want)) + 1)
                    if err:
                        ctx.close(float(out["error"]), loo(A, b), sig + "/leave_one_out", scale=abs(loo(A, b)) + np.max(np.abs(A)) ** 2 + 1)
                ctx.trace()
        with ctx.op("test_error", bb is not None, sig="density/test_error"):
            s = tensap.LinearModelLearningDensityL2()
            s.training_data, s.basis = ([x.reshape(-1, 1), bb] if bb is not None else x.reshape(-1, 1)), B
            Z = np.array([[0.2], [0.5], [-0.4]])
            s.test_error, s.test_data = True, Z
            sol, out = s.solve()
            f = np.mean(A, 0) - b
            ctx.close(float(out["test_error"]), float(f @ f - 2 * np.mean(np.asarray(B.eval(Z)) @ f)), "density/test_error", scale=f @ f + 1)
        for incl, E in itertools.product((None, [0], [P - 1, 0]), (A, A[:, :, None])):
            if bb is not None and incl == [P - 1, 0] and P == 1:
                continue
            inc = [] if incl is None else sorted(set(incl))
            if len(inc) == P or np.any(np.diff(np.sort(np.abs(np.mean(A, 0) - b))) < 1e-9):
                continue
            with ctx.op("regularization", incl, bb is not None, E.ndim, pure=[E], sig="density/regularization"):
                s = tensap.LinearModelLearningDensityL2()
                s.training_data, s.basis_eval, s.regularization = [None, bb] if bb is not None else [None], E, True
                s.regularization_options = {"alpha": 0} if incl is None else {"included_coefficients": inc}
                sol, out = s.solve()
                f = np.mean(A, 0) - b
                order = [i for i in np.argsort(-np.abs(f)) if i not in inc]
                cand = ([inc] if incl is not None else []) + [inc + order[:k + 1] for k in range(len(order))]
                errs = [loo(A, b, np.isin(np.arange(P), c)) for c in cand]
                ctx.close(np.ravel(out["error_path"]), errs, "density/regularization", msg="errors of the path", scale=np.max(np.abs(errs)) + np.max(np.abs(A)) ** 2 + 1)
                i = int(np.ravel(out["ind"])[0])
                ctx.check(errs[i] <= min(errs) + 1e-9 * (1 + abs(min(errs))), "density/regularization", "not the smallest error")
                ctx.close(np.ravel(sol), np.where(np.isin(np.arange(P), cand[i]), f, 0.0), "density/regularization", msg="selected", scale=np.max(np.abs(f)) + 1)
            ctx.trace()
    ctx.state(case["x"], P)


def run_density_path(case, ctx):
    x = np.array([[-0.8, -0.1, 0.3, 0.9], [0.3, 0.5, -0.7, 0.1], [-0.9, 0.9, 0.8, 0.95]][case["d"]])
    P = 3
    B = legendre(P)
    A = np.asarray(B.eval(x.reshape(-1, 1)))
    f0 = np.mean(A, 0)
    for n, path in enumerate(itertools.chain(paths(P, case["m"]), [None] if case["m"] == 1 else [])):
        for bb in (None, ref.gen((P,), 3)):
            b = np.zeros(P) if bb is None else bb
            for stop in (False, True):
                sig = "density/path"
                with ctx.op("basis_adaptation", None if path is None else path.astype(int).tolist(), stop, pure=[A, path], sig=sig):
                    s = tensap.LinearModelLearningDensityL2()
                    s.training_data, s.basis_eval, s.basis_adaptation, s.basis_adaptation_path = [None] if bb is None else [None, bb], A if n % 3 else A[:, :, None], True, path
                    s.model_selection_options = {"stop_if_error_increase": stop}
                    sol, out = s.solve()
                    cand = uniq(np.triu(np.ones((P, P))) if path is None else path, len(x))
                    f = f0 - b
                    if not cand:
                        ctx.close(np.ravel(sol), f, sig, msg="empty path")
                        continue
                    errs = [loo(A, b, c) for c in cand]
                    if stop:
                        for i in range(2, len(errs)):
                            if errs[i] > 2 * errs[i - 1]:
                                errs[i + 1:] = [np.inf] * len(errs[i + 1:])
                                break
                    got = np.ravel(out["error_path"])
                    ctx.same(np.isinf(got).tolist(), np.isinf(errs).tolist(), sig, "stop at an increase of the error")
                    ctx.close(np.where(np.isinf(got), 0, got), np.where(np.isinf(errs), 0, errs), sig, msg="errors of the path", scale=10)
                    i = int(np.ravel(out["ind"])[0])
                    ctx.check(errs[i] <= min(errs) + 1e-9, sig, "not the smallest error")
                    ctx.close(float(out["error"]), errs[i], sig, scale=10)
                    ctx.close(np.ravel(sol), np.where(cand[i], f, 0.0), sig, msg="selected")
                ctx.trace()
        ctx.state(case["d"], case["m"], n)


# -- losses ------------------------------------------------------------------------
class Fun:
    def __init__(self, f, norm=None):
        self.f = f
        self.n = norm

    def eval(self, x):
        return self.f(x)


class FunNorm(Fun):
    def norm(self):
        return self.n


def run_loss(case, ctx):
    x = np.array([[0.1, 0.2], [0.5, -0.3], [0.9, 0.4], [-0.6, 0.7]])
    for N in (1, 2, 4):
        X = x[:N]
        for d in (None, 1, 2, 3):
            if N == 1 and d is None:
                continue
            y = ref.gen((N,) if d is None else (N, d), 3)
            y2 = y.reshape(N, -1)
            outs = [((N, y2.shape[1]), lambda z: np.column_stack([np.sin((k + 1) * z[:, 0]) + z[:, 1] for k in range(y2.shape[1])]))]
            if y2.shape[1] == 1:
                outs.append(((N,), lambda z: np.sin(z[:, 0]) + z[:, 1]))
            for sh, f in outs:
                p = f(X)
                p2 = p.reshape(N, -1)
                for how, fn in (("values", p), ("function", f), ("object", Fun(f)), ("tensap", udf(f, p2.shape[1]))):
                    if N == 1 and sh == (N,) and how == "values":
                        continue
                    sig = "square loss"
                    with ctx.op("SquareLossFunction", N, d, sh, how, pure=[y, p], sig=sig):
                        L = tensap.SquareLossFunction()
                        r, r0 = np.sum((p2 - y2) ** 2, 1), np.sum(y2 ** 2, 1)
                        ctx.close(np.ravel(L.eval(fn, [X, y])), r, sig, msg="loss of each sample")
                        ctx.close(float(L.risk_estimation(fn, [X, y])), np.mean(r), sig, msg="risk")
                        a, c = L.risk_estimation(fn, [X, y], nargout=2)
                        ctx.close([float(a), float(c)], [np.mean(r), np.mean(r0)], sig, msg="risk and reference")
                        ctx.close(float(L.test_error(fn, [X, y])), np.sqrt(np.mean(r) / np.mean(r0)), sig, msg="relative error")
                        ctx.close(float(L.relative_test_error(fn, [X, y])), np.sqrt(np.mean(r) / np.mean(r0)), sig)
                        L.error_type = "absolute"
                        ctx.close(float(L.test_error(fn, [X, y])), np.sqrt(np.mean(r)), sig, msg="absolute error")
                        m = tensap.Learning(tensap.SquareLossFunction())
                        ctx.close(float(m.risk_estimation(fn, [X, y])), np.mean(r), sig, msg="risk of the learning")
                    ctx.trace()
                    ctx.state(N, d, sh, how)
        f = lambda z: np.sin(np.atleast_2d(z)[:, 0]) + 2   # noqa
        p = f(X)
        for how, fn, args in (("object", FunNorm(f, 1.7), ()), ("function", f, (1.7,)), ("values", p, (1.7,))):
            for sample in (X, [X]):
                with ctx.op("DensityL2LossFunction", N, how, isinstance(sample, list), pure=[X], sig="density loss"):
                    L = tensap.DensityL2LossFunction()
                    ctx.close(np.ravel(L.eval(fn, sample, *args)), 1.7 ** 2 - 2 * p, "density loss", msg="loss of each sample")
                    ctx.close(float(L.risk_estimation(fn, sample, *args)), 1.7 ** 2 - 2 * np.mean(p), "density loss", msg="risk")
                    ctx.close(float(L.test_error(fn, sample, *args)), 1.7 ** 2 - 2 * np.mean(p), "density loss", msg="test error")
                ctx.trace()
        y = ref.gen((N,), 2)
        for how, fn in (("values", p), ("function", f), ("object", Fun(f))):
            with ctx.op("CustomLossFunction", N, how, sig="custom loss"):
                L = tensap.CustomLossFunction(lambda a, b: np.abs(a - b) ** 3)
                ctx.close(np.ravel(L.eval(fn, [X, y])), np.abs(y - p) ** 3, "custom loss")
                ctx.close(float(L.risk_estimation(fn, [X, y])), np.mean(np.abs(y - p) ** 3), "custom loss")
                ctx.close(float(L.test_error(fn, [X, y])), np.mean(np.abs(y - p) ** 3), "custom loss")
                a, c = L.risk_estimation(fn, [X, y], nargout=2)
                ctx.close([float(a), float(c)], [np.mean(np.abs(y - p) ** 3), np.mean(np.abs(y) ** 3)], "custom loss")
                L.error_function = lambda fun, sample, *a: 3.5 * len(sample[1])
                L.relative_error_function = lambda fun, sample: 0.25 * len(sample[1])
                ctx.close([float(L.test_error(fn, [X, y])), float(L.relative_test_error(fn, [X, y]))], [3.5 * N, 0.25 * N], "custom loss", msg="error functions given")
            ctx.trace()
    for L, cls in ((tensap.SquareLossFunction(), "LinearModelLearningSquareLoss"), (tensap.DensityL2LossFunction(), "LinearModelLearningDensityL2")):
        with ctx.op("linear_model", cls, sig="linear_model"):
            m = tensap.Learning.linear_model(L)
            ctx.same(type(m).__name__, cls, "linear_model")
            ctx.same(type(m.loss_function).__name__, type(L).__name__, "linear_model", "loss of the model")


def udf(f, n):
    u = tensap.UserDefinedFunction(f, 2, n if n > 1 else 1)
    u.evaluation_at_multiple_points = True
    return u


# -- histories of one solver ---------------------------------------------------------
def run_history(case, ctx):
    """every sequence of two and three problems given to one solver, each compared with a fresh solver"""
    xs = [np.array([-1.0, 0.0, 1.0, 2.0, 0.5]), np.array([0.3, -0.7, 1.4]), np.array([0.1, 0.2, 0.9, -0.4, 0.6, 1.3])]
    P = 2
    probs = []
    for i, x in enumerate(xs):
        probs.append(("1d", x, ref.gen((len(x),), i)))
        probs.append(("two", x, ref.gen((len(x), 2), i)))
    setups = [{}, {"weights": 1}, {"error_estimation": True}, {"error_estimation": True, "error_estimation_type": "k_fold", "error_estimation_options": {"correction": False}},
              {"basis_adaptation": True}, {"regularization": True, "regularization_type": "l1"}, {"regularization": True, "regularization_type": "l2", "regularization_options": {"alpha": 0.1}}]
    for st in setups:
        def make(st=st):
            s = tensap.LinearModelLearningSquareLoss()
            s.basis, s.shared_coefficients = basis_of(P), False
            for k, v in st.items():
                if k != "weights":
                    setattr(s, k, dict(v) if isinstance(v, dict) else v)
            return s

        def give(s, p, st=st):
            s.training_data = [p[1].reshape(-1, 1), p[2]]
            if "weights" in st:
                s.weights = 1.0 + np.arange(len(p[1]))
            with shuffled(range(len(p[1]))):
                f, out = s.solve()
            return np.reshape(f.data, (P, -1)), np.ravel(np.array(out.get("error", 0.0), dtype=float))
        for hist in itertools.product(range(len(probs)), repeat=2):
            sig = "history"
            s = make()
            ps = [probs[i] for i in hist] + [probs[hist[0]]]
            for j, p in enumerate(ps):
                with ctx.op("solve", str(st), hist, j, pure=[p[1], p[2]], sig=sig):
                    a, ea = give(s, p)
                    b, eb = give(make(), p)
                    ctx.close(a, b, sig, msg="problem %d of the history, coefficients" % j, tol=1e-9)
                    ctx.close(ea, eb, sig, msg="problem %d of the history, error" % j, tol=1e-9)
            ctx.trace(len(ps))
            ctx.state(str(st), hist)
